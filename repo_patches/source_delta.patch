From 94e8e246edfb1ae9cd5b65e6cd495bd6eeef9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 01/38] fix: analyse the else clause of a for loop and don't
 use it as the loop's body

---
 src/hypertag/core/ast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..da0f2fc 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -938,8 +938,9 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            body = self.children[2:-1] if self.else_ else self.children[2:]
+            self.body = body[0] if body else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -948,6 +949,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 7917907ec834ba2cd8f271c46999bc638f71e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 02/38] fix: allow an else clause with an empty body

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index da0f2fc..feb9d59 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -904,8 +904,8 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            assert len(self.children) <= 1
+            return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From 2bec5a946eef8408b2faff455e10e952e2b0a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/38] fix: don't execute the else clause after a try clause
 with an empty body

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index feb9d59..31e1367 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -863,6 +863,8 @@ class NODES(object):
         If all branches fail, including the last one, empty output is rendered (exception from the last branch is NOT re-raised).
         """
         def _select_branch(self, state):
+            if self.children and self.children[0].type == 'clause_else':
+                return DOM(), -1                # empty "try" clause never fails, "else" clauses must not be executed
             for i, branch in enumerate(self.children):
                 try:
                     body = branch.translate(state)
-- 
2.43.0


From 11850498c300ffe217472fcdb9759ae5a528754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 04/38] fix: unpack the value assigned to a single target with
 a trailing comma

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 31e1367..3313d24 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1051,12 +1051,12 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if N == 1 and not self.text().endswith(','):
                 self.children[0].assign(state, value)
                 return
             
             # unpack and assign to multiple child targets
-            i = 0
+            i = -1
             for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
                 if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
                 self.children[i].assign(state, v)
-- 
2.43.0


From 668fd7b6b5ce102ba0c491105a0b8f480177739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 05/38] fix: embed a copy of DOM nodes, so that the same body
 can be embedded many times

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3313d24..5ff8787 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -515,7 +515,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # the same nodes may be embedded again in another place
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From 4b93a4ec3803c5e327133bf60e4960f4795f171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/38] fix: correct indentation in the output of a hypertag
 called in a text block's expression

---
 src/hypertag/core/ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 5ff8787..e400fc3 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -135,7 +135,15 @@ class EmbeddedHypertag:
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
         body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
-        dom  = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        
+        # inside text blocks, indentation is temporarily set to '', but translation of blocks needs an absolute one
+        indent = self.state.indentation
+        self.state.indentation = State.indentation
+        try:
+            dom = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        finally:
+            self.state.indentation = indent
+        
         dom.set_indent('')
         return dom.render()
 
-- 
2.43.0


From 7d50a459538bc05ae63412ac263d5733e5fa488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/38] fix: expand imported hypertags in a copy of their
 module's state, with the caller's indentation

---
 src/hypertag/core/ast.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e400fc3..af0100a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -110,12 +110,9 @@ class ImportedHypertag(Hypertag):
         
     def expand(self, body, attrs, kwattrs, state, caller):
         
-        # module_state = State(self.module_state.values)          # module's terminal state is copied anew on every tag expansion
-
-        # module's terminal state is NOT copied on subsequent expansions, which means that
-        # stored values of local symbols may change after the call below;
-        # TODO: make sure that values of local variables are cleared after expansion of an <xblock_def> block
-        return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        module_state = State(self.module_state.values)          # module's terminal state is copied anew on every tag expansion
+        module_state.indentation = state.indentation            # ...but the output is inserted at the point of tag occurrence
+        return self.hypertag.expand(body, attrs, kwattrs, module_state, caller)
 
 class EmbeddedHypertag:
     """
-- 
2.43.0


From 8374045d96598746850735da53a03eca7ead7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 08/38] fix: make variables assigned in a control block of a
 tagged block visible to its siblings

---
 src/hypertag/core/ast.py     |  5 +++--
 src/hypertag/core/structs.py | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index af0100a..7920e55 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -419,7 +419,7 @@ class NODES(object):
             symbols = {}
             for symbol, slot in self.slots_out.items():
                 try:
-                    symbols[symbol] = slot.get(state)
+                    symbols[symbol] = state[slot]
                     
                 except KeyError:    # some top-level slots may remain uninitialized if defined inside a control block (if/for/...)
                     continue
@@ -806,7 +806,8 @@ class NODES(object):
                 branch.analyse(ctx)
                 symbols = ctx.asdict(position)          # top-level symbols declared in this branch...
                 ctx.reset(position)
-                ctx.pushnew(symbols)                    # ...only new symbols (not declared in a previous branch) are added
+                ctx.pushall(symbols)                    # ...override symbols of outer namespaces; a symbol declared in a previous branch
+                                                        # is not declared again, its slot is reused in the subsequent branches
                 
                 # local_slots.append(symbols)
                 # new_symbols += symbols.keys()
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..fa996a9 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -420,6 +420,8 @@ class Slot:
     name    = None
     symbol  = None
     
+    outer   = None      # slot of the same symbol defined in an outer namespace (with a lower `depth`), overridden by self;
+                        # it's still in effect as long as self is uninitialized
     primary = None      # 1st definition of this symbol, if self represents a re-assignment (override)
     depth   = None      # ctx.regular_depth of this slot, for correct identification of re-assignments that occur
                         # at the same depth (in the same namespace)
@@ -435,6 +437,9 @@ class Slot:
         from .ast import NODES
         assert link is None or isinstance(link, (Slot, NODES.attribute, NODES.variable)), 'unrecognized type of slot: %s' % type(link)
         
+        if link and link.depth < self.depth:
+            self.outer = link
+        
         # if link and link.depth == self.depth:
         #     self.primary = link
         # else:
@@ -444,8 +449,10 @@ class Slot:
         state[self.primary or self] = value
         
     def get(self, state):
-        """Raises KeyError if this slot is uninitialized in `state`."""
-        return state[self.primary or self]
+        """Raises KeyError if this slot is uninitialized in `state`, and so are the slots it overrides."""
+        slot = self.primary or self
+        if self.outer and slot not in state: return self.outer.get(state)
+        return state[slot]
     
 
 class ValueSlot(Slot):
-- 
2.43.0


From c352ebf11f5dab4dcf68b31b4d7ec8bd9daefca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/38] fix: let a loop inside a tagged block read the values
 it assigned in previous iterations

---
 src/hypertag/core/ast.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 7920e55..c7d93e4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -845,6 +845,18 @@ class NODES(object):
         #         value = in_slot.get(state)
         #         out_slot.set(state, value)
         
+        def _declare_assigned(self, node, ctx):
+            """
+            Declare all variables assigned inside a loop that override variables of an outer namespace. This must be done
+            before the loop is analysed, as the value assigned in one iteration can be read at any point of the next iteration.
+            """
+            for child in node.children:
+                if isinstance(child, (NODES.xblock_struct, NODES.xblock_def)): continue         # separate namespace
+                if isinstance(child, NODES.xvar_def):
+                    slot = ctx.get(VAR(child.name))
+                    if slot and slot.depth != ctx.regular_depth: Slot(VAR(child.name), ctx)
+                self._declare_assigned(child, ctx)
+        
         def _select_branch(self, state):
             raise NotImplementedError
         
@@ -916,8 +928,10 @@ class NODES(object):
             return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
-        # def _analyse_branches(self, ctx):
-        #     self.children[0].analyse(ctx)
+        def _analyse_branches(self, ctx):
+            self._declare_assigned(self, ctx)
+            super(NODES.xblock_while, self)._analyse_branches(ctx)
+            
         def translate(self, state):
             out = []
             empty = True
@@ -955,6 +969,7 @@ class NODES(object):
             
         def _analyse_branches(self, ctx):
             self.expr.analyse(ctx)
+            self._declare_assigned(self, ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
             if self.else_: self.else_.analyse(ctx)
-- 
2.43.0


From 012cfc214e886c8abc08c69c591908f3f0910b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 10/38] fix: clear local variables of a tagged block or
 hypertag, so that they don't leak to its next expansion

---
 src/hypertag/core/ast.py     | 30 ++++++++++++++++++++----------
 src/hypertag/core/structs.py | 13 +++++++++++++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c7d93e4..a2b8616 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -128,19 +128,17 @@ class EmbeddedHypertag:
         self.hypertag = hypertag
         self.caller = caller
         self.state  = state
+        self.values = state.values.copy()       # current values of local variables, which may be out of scope when __call__() is executed
         
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
         body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
         
-        # inside text blocks, indentation is temporarily set to '', but translation of blocks needs an absolute one
-        indent = self.state.indentation
-        self.state.indentation = State.indentation
-        try:
-            dom = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
-        finally:
-            self.state.indentation = indent
+        # a new State has an absolute indentation, as needed for translation of blocks; inside text blocks, it's temporarily set to ''
+        state = State(self.values)
+        state.update(self.state.values)
         
+        dom = self.hypertag.expand(body, attrs, kwattrs, state, self.caller)
         dom.set_indent('')
         return dom.render()
 
@@ -536,6 +534,7 @@ class NODES(object):
     class xblock_struct(node):
         tags = None         # <tags_expand> node
         body = None         # <body_struct> node
+        locals = None       # slots defined in the local namespace of this block
         
         def setup(self):
             self.tags = self.children[0]
@@ -546,11 +545,16 @@ class NODES(object):
             ctx.regular_depth += 1
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
+            self.locals = ctx.since(position)
             ctx.reset(position)             # tagged node defines a local namespace, hence need to drop symbols defined inside
             ctx.regular_depth -= 1
             
         def translate(self, state):
-            body = self.body.translate(state)
+            saved = state.enter(self.locals)
+            try:
+                body = self.body.translate(state)
+            finally:
+                state.leave(self.locals, saved)
             body = self.tags.apply_tags(state, body)
             body.set_indent(state.indentation)
             return body
@@ -564,6 +568,7 @@ class NODES(object):
         attr_regul = None           # all regular (non-body) attributes, as a list of children
         body       = None
         slot       = None
+        locals     = None           # slots of attributes and of all symbols defined in the body
         native     = None           # a Native tag instance that will be inserted into all DOMs
         
         def setup(self):
@@ -605,6 +610,7 @@ class NODES(object):
 
             self.body.analyse(ctx)                  # analyse the formal body
 
+            self.locals = ctx.since(position)
             ctx.reset(position)
             ctx.hypertag_depth -= 1
             ctx.regular_depth  -= 1
@@ -622,8 +628,12 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
-            dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
-            output = self.body.translate(state)
+            saved = state.enter(self.locals)
+            try:
+                dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)     # extend `state` with actual values of tag attributes
+                output = self.body.translate(state)
+            finally:
+                state.leave(self.locals, saved)
             output.set_indent(state.indentation)
             # return output
             
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index fa996a9..4381f44 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -164,6 +164,10 @@ class MultiDict(object):
             else: self.lookup[name] = prev
         self.stack.size = position
 
+    def since(self, start_position):
+        """List of values pushed at `start_position` or later, including the ones that were overriden afterwards."""
+        return [value for _, value, _ in self.stack[start_position:]]
+
     def asdict(self, start_position = 0):
         """Return all current symbols and their values as an ordered dict, starting at `start_position`."""
         rng = range(start_position, self.stack.size)
@@ -385,6 +389,15 @@ class State:
     def update(self, values):
         self.values.update(values)
         
+    def enter(self, slots):
+        """Open a local namespace: make its `slots` uninitialized. Returns their previous values, to be passed to leave()."""
+        return {slot: self.values.pop(slot) for slot in slots if slot in self.values}
+        
+    def leave(self, slots, saved):
+        """Close a local namespace opened with enter()."""
+        for slot in slots: self.values.pop(slot, None)
+        self.values.update(saved)
+        
     def indent(self, whitechar):
         self.indentation += whitechar
     
-- 
2.43.0


From 992623b48f5e2152d4f1c4cfd497d284d9c61d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/38] fix: export top-level variables whose names override
 built-ins

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index a2b8616..97c5f1a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -396,7 +396,9 @@ class NODES(object):
             if globals: self.globals = globals
         
         def analyse(self, ctx):
+            ctx.regular_depth -= 1          # built-ins reside in an outer namespace; the ones overriden in the document are its top-level symbols
             self.slots_in = {symbol: ValueSlot(symbol, value, ctx) for symbol, value in self.globals.items()}
+            ctx.regular_depth += 1
             # ctx.pushall(self.slots_in)   -- not needed because each symbol is pushed to `ctx` during ValueSlot() creation
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
-- 
2.43.0


From 93653bc7c640df0e27ed4712d183639bab91a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 12/38] fix: make the power operator right-associative, like in
 Python

---
 src/hypertag/core/ast.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 97c5f1a..2d6c679 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1614,7 +1614,14 @@ class NODES(object):
             return head, tail
     
     class xpow_expr(chain_expression):
-        """chain of power operators: ** """
+        """chain of power operators: ** ... right-associative, like in Python"""
+        def evaluate(self, state):
+            values = [expr.evaluate(state) for expr in self.children[0::2]]
+            ops    = self.children[1::2]
+            res    = values[-1]
+            for op, val in zip(reversed(ops), reversed(values[:-1])):
+                res = op.apply(val, res)
+            return res
     class xterm(chain_expression):
         """chain of multiplicative operators: * / // %"""
     class xshift_expr(chain_expression):
-- 
2.43.0


From 8ac81e20f5cce90e93d9742076cdf7f8d18cf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 13/38] fix: evaluate chained comparisons like in Python

---
 src/hypertag/core/ast.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 2d6c679..f92c139 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1691,9 +1691,22 @@ class NODES(object):
             
             
     class xcomparison(chain_expression):
-        "chain of comparison operators: < > == >= <= != in is, not in, is not"
+        """
+        Chain of comparison operators: < > == >= <= != in is, not in, is not.
+        Like in Python, x1 OP1 x2 OP2 x3 ... means: x1 OP1 x2 and x2 OP2 x3 ... - with lazy evaluation.
+        """
         raise_null = False
         
+        def evaluate(self, state):
+            left, tail = self._prepare(state)
+            res = left
+            for op, expr in zip(tail[0::2], tail[1::2]):
+                right = expr.evaluate(state)
+                res   = op.apply(left, right)
+                if not res: break
+                left  = right
+            return res
+        
     class xnot_test(expression):
         """not not not ..."""
         def evaluate(self, state):
-- 
2.43.0


From 94fc5c2c061a92cf1e8da837a8e34fe1c35eff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 14/38] fix: don't fail in DOM.select() and skip() on nodes
 that have no attributes

---
 src/hypertag/core/dom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..e33aa10 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -252,9 +252,10 @@ class DOM:
         if tag  is not None and node.tag is not tag: return False
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
+        kwattrs = node.kwattrs or {}            # text and null nodes have no attributes
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
-            if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
+            if a not in kwattrs: return False
+            if v is not DOM.ATTR_DEFINED and kwattrs[a] != v: return False
 
         return True
     
-- 
2.43.0


From 41909065b910f2523a9dd306b4ff7551bc9b681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 15/38] fix: apply DOM.alter() transformation in the requested
 order

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index e33aa10..27b966c 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -174,13 +174,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From e42450ef82389ae5717ac6ba1ccaac9c8cf851e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 16/38] fix: import scripts from folders that are not Python
 packages, and set a correct package path otherwise

---
 src/hypertag/core/runtime.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..f409a65 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -248,15 +248,20 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                    package_path = getattr(pkg, '__file__', None)           # missing in a folder that is not a valid package
+                except ModuleNotFoundError:
+                    package_path = None
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
+                    
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = path
+                    if not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
-- 
2.43.0


From 93f1d271f360de9ea48b7aa558a0a44741ec8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 17/38] fix: don't translate an imported script again if it's
 been already loaded by the same runtime

---
 src/hypertag/core/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index f409a65..90ec8d0 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -278,6 +278,8 @@ class HyLoader(Loader):
         if not location or not os.path.exists(location):
             return None
         
+        if location in self.cache: return self.cache[location]
+
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
         script = open(location).read()
-- 
2.43.0


From 1474207b35832aad9af4526680d608d071c69e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 18/38] fix: don't expose incomplete built-ins when a runtime
 is used for the first time by several threads

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 90ec8d0..f0b8669 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -340,10 +340,11 @@ class Runtime:
         This typically means all general-purpose symbols + standard tags/variables specific for a target language.
         """
         if self._builtins is None:
-            self._builtins = {}
+            builtins = {}
             for path in self.BUILTINS:
                 module = self.import_module(path, RootModule(), None)
-                self._builtins.update(module.symbols)
+                builtins.update(module.symbols)
+            self._builtins = builtins           # only assigned when complete, so that other threads never see a part of it
                 
         return dict(self._builtins)
         
-- 
2.43.0


From 9d830941a397ab35dd5cb1be34d67d40ed8787c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 19/38] fix: don't modify the caller's context when rendering a
 Django template

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..8568ab3 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -69,8 +69,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context or {})           # the caller's dict must not be modified
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From 9e6abad3b927b83a086ee7a4df48cc6362d64a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 20/38] fix: resolve relative imports when the referrer's file
 name has no folder

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index f0b8669..98d7d30 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -228,7 +228,7 @@ class HyLoader(Loader):
         
         # whenever possible, python package path (python_path) of the module is inferred, so that its `package` can be set
         location = python_path = None
-        ref_root = os.path.dirname(referrer.filename) if referrer.filename else None
+        ref_root = os.path.dirname(os.path.abspath(referrer.filename)) if referrer.filename else None
         
         # relative import path is always resolved relative to the referrer's folder
         if path[:1] == '.':
-- 
2.43.0


From 4223a4c287d0aefdc150498ffdbb3231dda40843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 21/38] fix: raise an error on circular imports instead of
 crashing the process

---
 src/hypertag/core/runtime.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 98d7d30..015f571 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -1,4 +1,4 @@
-import os, sys, importlib
+import os, sys, importlib, threading
 
 from hypertag.core.errors import ImportErrorEx, ModuleNotFoundEx
 from hypertag.core.grammar import MARK_VAR, MARK_TAG, VAR, TAG, TAGS
@@ -223,6 +223,7 @@ class HyLoader(Loader):
     def __init__(self, resolve = None):
         super(HyLoader, self).__init__()
         self.resolve = resolve
+        self.loading = threading.local()        # .locations: list of scripts being loaded by the current thread
 
     def load(self, path, referrer, runtime):
         
@@ -284,7 +285,15 @@ class HyLoader(Loader):
         
         script = open(location).read()
         
-        module = self.cache[location] = runtime.translate(script, location, package)
+        loading = self.loading.__dict__.setdefault('locations', [])
+        if location in loading: raise ImportErrorEx("circular import of '%s'" % path)
+        
+        loading.append(location)
+        try:
+            module = self.cache[location] = runtime.translate(script, location, package)
+        finally:
+            loading.pop()
+        
         module.location = location
         module.package = package
         
-- 
2.43.0


From c9972146afc38d712ee8bcd5e43d9f537d1083a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 22/38] fix: keep indentation of blocks nested under an inner
 tag of a chain when it's passed to a hypertag

---
 src/hypertag/core/ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f92c139..28ea00a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1216,7 +1216,7 @@ class NODES(object):
                 return tag.expand(body, attrs, kwattrs, state, self)
             
             elif isinstance(tag, Tag):
-                return DOM.node(body, tag = tag, attrs = attrs, kwattrs = kwattrs)
+                return DOM.node(body, state.indentation, tag = tag, attrs = attrs, kwattrs = kwattrs)
             
             else:
                 raise NotATagEx("Not a tag: '%s' (%s)" % (self.name, tag.__class__), self)
@@ -1236,7 +1236,7 @@ class NODES(object):
             
     class xnull(node):
         def translate_tag(self, state, body):
-            return DOM.node(body, tag = null)
+            return DOM.node(body, state.indentation, tag = null)
         
     class xpass(node):
         def translate(self, state):
-- 
2.43.0


From e47b73a0dadccc0a0898413db7f92e5c7e24132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 23/38] fix: don't let PyPy replace a TypeError raised in a
 block with a misleading one

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 28ea00a..6ec47f0 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -454,7 +454,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]     # not a generator: PyPy would replace any TypeError raised inside
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From 9871b654447c41952a6484a4b8507887173e58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 24/38] fix: "if x != y" took "!= y" for a verbatim text body

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..d7a3dbb 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -49,7 +49,7 @@ target           =  ('(' ws targets ws ')') / var_def           # left side of a
 var_def          =  name_id ''                                  # definition (assignment) of a variable
 
 tail_for         =  (expr_factor generic_control) / (expr_augment body_control?)
-tail_if          =  (expr_factor generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
+tail_if          =  (expr_factor !(ws '!=') generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
 
 ###  DEFINITION BLOCKS
 
-- 
2.43.0


From 9040b11d7fe1c4881dfe748a74b20dce11a91b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 25/38] fix: a one-element tuple without parentheses ("1,") was
 evaluated to its element

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 6ec47f0..aeca6f3 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1986,7 +1986,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From 59ecdf622613d75030bf9b8cbe5ef7d66b0414ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 26/38] fix: slicing of a DOM ("@body[2:]") returned a list of
 lists instead of nodes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 27b966c..3b6885c 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -95,7 +95,7 @@ class DOM:
         if isinstance(pos, int):
             return self.nodes[pos]
         if isinstance(pos, (int, slice)):
-            return DOM(self.nodes[pos], _strict = False)
+            return DOM(*self.nodes[pos], _strict = False)
         # if isinstance(pos, (str, Tag)):
         return self.select(pos)
     
-- 
2.43.0


From 99c91108764c672b035bfc687a13b35b3f06a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 27/38] fix: an even number of "not" operators returned the
 operand instead of a boolean

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index aeca6f3..f8df39b 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1713,7 +1713,7 @@ class NODES(object):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
             neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            return not val if neg else bool(val)
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From 9d72d13c1d989da9b3fb2458d8374c2a1ba4f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 28/38] fix: report an error at the line where the offending
 block starts, not where it ends

---
 src/hypertag/nifty/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0


From 9f35d42ea9405d84531b29e2feb8d8c300a026fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 29/38] fix: report the location of a positional attribute that
 follows a keyword one

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f8df39b..d7d1c0b 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1190,7 +1190,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", attr)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
-- 
2.43.0


From fcd91707f071148407f23732b5b7ed6d3b32632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:18 +0000
Subject: [PATCH 30/38] fix: pass the body of a hypertag called in an
 expression as a DOM, not a bare node

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d7d1c0b..c0f88c9 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -132,7 +132,7 @@ class EmbeddedHypertag:
         
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         
         # a new State has an absolute indentation, as needed for translation of blocks; inside text blocks, it's temporarily set to ''
         state = State(self.values)
-- 
2.43.0


From ff6eb756343f3f1ed9351d86ddd997200f15046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 31/38] fix: pass the body of an external tag called in an
 expression as a DOM, not a bare node

---
 src/hypertag/core/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/tag.py b/src/hypertag/core/tag.py
index c28ea7d..8663168 100644
--- a/src/hypertag/core/tag.py
+++ b/src/hypertag/core/tag.py
@@ -40,7 +40,7 @@ class Tag:
         without an intermediate DOM. This method can be used as a shortcut inside Hypertag expressions
         to skip DOM creation entirely.
         """
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         return self.expand(body, attrs, kwattrs)
         
 
-- 
2.43.0


From 7dc2b6022a87136993182207afa8c6b3ced6f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 32/38] fix: don't split a name that starts with "not" or "in"
 after an "is" operator (x is note)

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index d7a3dbb..0689de5 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -246,7 +246,7 @@ op_shift     =  '<<' / '>>'
 op_empty     =  '?' / '!'
 
 not          =  'not'
-op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not|in|is"
+op_comp      =  ~"==|!=|<>|>=|<=|<|>|(not\s+in|is\s+not|in|is)\\b"
 
 ###  IDENTIFIERS
 
-- 
2.43.0


From 025816f40447a7a7c430a8be950473d04d1cdb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 33/38] fix: accept variables whose names start with True,
 False or None in expressions

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 0689de5..7ca4bca 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -266,8 +266,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From 8cd71bbf363c07b7bc20006bb76f5a76f552132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 34/38] fix: accept tags whose names start with "try" or "else"
 at the beginning of a block

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 7ca4bca..5505317 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -29,7 +29,7 @@ append           =  '...'                       # marks the block is a continuat
 block_control    =  block_assign / block_expr / block_if / block_try / block_for / block_while
 
 block_try        =  try_long / try_short
-try_long         =  'try' generic_control? clause_else*
+try_long         =  ~"try\\b" generic_control? clause_else*
 try_short        =  '?' ws (block_struct / body_control)?       # short version of "try" block:  ?tag ... or ?|...
 
 block_expr       =  mark_eval expr_assign
@@ -42,7 +42,7 @@ block_for        =  'for' space targets space 'in' space tail_for clause_else?
 block_if         =  'if' clause_if (nl 'elif' clause_if)* clause_else?
 
 clause_if        =  space tail_if
-clause_else      =  nl 'else' generic_control?
+clause_else      =  nl ~"else\\b" generic_control?
 
 targets          =  target (comma target)* (ws ',')?            # result object must be unpacked whenever at least one ',' was parsed
 target           =  ('(' ws targets ws ')') / var_def           # left side of assignment: a variable, or a tuple of variables/sub-tuples
-- 
2.43.0


From 0ddb3728e5cc796b777a959efbca1cfdcabac02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:06 +0000
Subject: [PATCH 35/38] fix: joining values of a repeated attribute extended a
 list in place: the caller's variable was changed

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c0f88c9..be60417 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1228,7 +1228,7 @@ class NODES(object):
             for name, expr in self.named:
                 value = expr.evaluate(state)
                 if name in named:
-                    named[name] += ' ' + value       # = '{named[name]} {value}'
+                    named[name] = named[name] + ' ' + value       # = '{named[name]} {value}'; not "+=": it would extend a list in place
                 else:
                     named[name] = value
                     
-- 
2.43.0


From 5fa83525302f7b59d6d2668a0f2af7db2830350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:47 +0000
Subject: [PATCH 36/38] fix: the layout of a text block depended on whitespace
 inside embedded values, some of which was lost

---
 src/hypertag/core/ast.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index be60417..25d1d2c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -6,6 +6,7 @@
 from __future__ import unicode_literals
 
 import sys, re, codecs, operator
+from os.path import commonprefix
 from collections import OrderedDict
 from six import reraise, text_type
 
@@ -20,7 +21,7 @@ from hypertag.core.errors import SyntaxErrorEx, ValueErrorEx, TypeErrorEx, False
 from hypertag.core.grammar import grammar, MARK_TAG, MARK_VAR, TAG, VAR, IS_TAG
 from hypertag.core.xml_chars import XML_StartChar, XML_Char, XML_EndChar
 from hypertag.core.structs import Context, State, Slot, ValueSlot
-from hypertag.core.dom import del_indent, get_indent, DOM
+from hypertag.core.dom import DOM
 from hypertag.core.tag import Tag, null
 
 DEBUG = False
@@ -478,24 +479,35 @@ class NODES(object):
             state.indentation = ''
             
             lead = self.column          # horizontal position where the block's first line begins in the script
+            parts   = [' ' * lead]      # rendered lines, with newlines in between; in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+            starts  = [0]               # indices of `parts` where a line of the script begins
+            indents = []                # indentation of each line in the script; whitespace in embedded values has no impact on the layout
+            gap     = False             # is there any space between the marker and the headline?
             try:
-                body = self._render_all(self.children, state)
-                # if body.startswith('\n'):
-                #     output = body[1:]                   # no headline? drop the leading newline
-                # else:
-                output = ' ' * lead + body          # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+                for pos, node in enumerate(self.children):
+                    if isinstance(node, NODES.line):
+                        source = node.text()
+                        if pos == 0: gap = source.startswith(' ')
+                        else:        starts.append(len(parts))
+                        source = (' ' * lead if pos == 0 else state.indentation) + source
+                        indents.append(source[: len(source) - len(source.lstrip(' \t'))])
+                    
+                    if pos == 0: parts[0] += node.render(state)
+                    else:        parts.append(node.render(state))
             finally:
                 state.indentation = indent
 
-            sub_indent = get_indent(output)
+            sub_indent = commonprefix(indents)
             sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved in `output`
-            output = del_indent(output, sub_indent)
+            for i in starts:
+                if parts[i].startswith(sub_indent): parts[i] = parts[i][len(sub_indent):]
+            output = ''.join(parts)
             # print('sub_indent: "{sub_indent}"')
 
             # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
             if len(sub_indent) < lead:
                 drop = lead - len(sub_indent)
-                if output[drop:drop+1] == ' ': drop += 1
+                if gap: drop += 1
                 output = output[drop:]
                 
             # # drop the 1st line (headline) if empty
-- 
2.43.0


From 106f41aa4d5652e5e94463b1eae209dd645dfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:54 +0000
Subject: [PATCH 37/38] fix: whitespace other than spaces and tabs at the
 beginning of a line was replaced with a tab

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 25d1d2c..07edb6b 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -227,7 +227,7 @@ class Grammar(Parsimonious):
         for line in script:
             linenum += 1
             line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            tail = line.lstrip(' \t')             # other whitespace (non-breaking space etc.) is contents, not indentation
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
-- 
2.43.0


From 6ae81af93652ae8d5ce5215fe511d90c1bc6abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:55 +0000
Subject: [PATCH 38/38] fix: Django filters can be imported in a process where
 Django is configured already

---
 src/hypertag/django/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 23e1bc8..2afa1e5 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -20,11 +20,12 @@ from django.template.defaultfilters import register as __register_default__
 from django.contrib.humanize.templatetags.humanize import register as __register_humanize__
 
 ##
-## for now, Django's default settings are always used in those filters that depend on them
+## outside a Django project, Django's default settings are used in those filters that depend on them
 ##
 
-__settings__.configure()
-__django__.setup()
+if not __settings__.configured:
+    __settings__.configure()
+    __django__.setup()
 
 
 globals().update(__register_humanize__.filters)
-- 
2.43.0

