From 748cc29205ee500759c37d4692d5363afa7e0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 1/9] fix: do not confuse rules when a temporary rule's id is
 reused

RuleTransformator memoized results by id(item) without keeping item alive.
Squash creates temporary rules, after they are freed another rule may get
the same id and be silently replaced by an unrelated result:
rule(A.optional().repeatable(), B.optional().repeatable()) became A A.
---
 yargy/rule/transformators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 5edf771..8158dff 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -68,11 +68,12 @@ class RuleTransformator(Visitor):
     def visit(self, item):
         item_id = id(item)
         if item_id in self.visited:
-            return self.visited[item_id]
+            _, result = self.visited[item_id]
         else:
-            item = self.resolve_method(item)(item)
-            self.visited[item_id] = item
-            return item
+            result = self.resolve_method(item)(item)
+            # keep item alive, otherwise its id may be reused
+            self.visited[item_id] = item, result
+        return result
 
     def visit_term(self, item):
         if is_rule(item):
-- 
2.43.0


From f98896296d3806224c4dc3177a7baccceae9f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 2/9] fix: building a parser does not change recursive rules

Transformations redefined forward rules in place, so a recursive grammar
could be used only once: the second Parser(EXPR) failed with RecursionError,
EXPR.normalized.as_bnf before Parser(EXPR) lost interpretations.
---
 yargy/rule/bnf.py            | 2 +-
 yargy/rule/transformators.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/yargy/rule/bnf.py b/yargy/rule/bnf.py
index d1298b2..af30250 100644
--- a/yargy/rule/bnf.py
+++ b/yargy/rule/bnf.py
@@ -115,7 +115,7 @@ class BNFTransformator(RuleTransformator):
     def visit_WrapperRule(self, item):
         item = item.rule
         if is_forward_rule(item):
-            return lift(item)
+            return lift(self.visit(item))
         shared = self.is_shared(item)
         item = self.visit(item)
         if shared:
diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 8158dff..1ef0fd6 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -60,9 +60,13 @@ class RuleTransformator(Visitor):
         self.visited = {}
 
     def __call__(self, root):
-        for item in root.walk(types=ForwardRule):
+        # copy forwards, do not redefine forwards of the original rule
+        items = list(root.walk(types=ForwardRule))
+        for item in items:
+            self.visited[id(item)] = item, ForwardRule()
+        for item in items:
             if item.rule:
-                item.define(self.visit(item.rule))
+                self.visit(item).define(self.visit(item.rule))
         return self.visit(root)
 
     def visit(self, item):
-- 
2.43.0


From ee00aa3df692cead471c97b368475cd7f773f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 3/9] fix: building a parser does not bind grammar parts to its
 tokenizer

Activation replaced predicates and pipelines of the user's rule in place.
A second parser built from the same rule (or a rule sharing a part of it)
with another tokenizer got predicates and keys prepared by the first one.
---
 yargy/rule/transformators.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/yargy/rule/transformators.py b/yargy/rule/transformators.py
index 1ef0fd6..708d335 100644
--- a/yargy/rule/transformators.py
+++ b/yargy/rule/transformators.py
@@ -29,6 +29,7 @@ from .constructors import (
     InterpretationRule,
     RelationRule,
     ForwardRule,
+    PipelineRule,
 )
 
 
@@ -104,17 +105,17 @@ class RuleTransformator(Visitor):
         return OrRule([self.visit(_) for _ in item.rules])
 
     def visit_OptionalRule(self, item):
-        return OptionalRule(self.visit(item.rule, item.reverse))
+        return OptionalRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableRule(self, item):
-        return RepeatableRule(self.visit(item.rule, item.reverse))
+        return RepeatableRule(self.visit(item.rule), item.reverse)
 
     def visit_RepeatableOptionalRule(self, item):
-        return RepeatableOptionalRule(self.visit(
-            item.rule,
+        return RepeatableOptionalRule(
+            self.visit(item.rule),
             item.reverse_repeatable,
             item.reverse_optional
-        ))
+        )
 
     def visit_MinBoundedRule(self, item):
         return MinBoundedRule(self.visit(item.rule), item.min, item.reverse)
@@ -147,7 +148,7 @@ class RuleTransformator(Visitor):
         return item
 
 
-class ActivateTransformator(InplaceRuleTransformator):
+class ActivateTransformator(RuleTransformator):
     def __init__(self, context):
         super(ActivateTransformator, self).__init__()
         self.context = context
@@ -155,12 +156,10 @@ class ActivateTransformator(InplaceRuleTransformator):
     def visit_term(self, item):
         if is_predicate(item):
             return item.activate(self.context)
-        else:
-            return item
+        return super(ActivateTransformator, self).visit_term(item)
 
     def visit_PipelineRule(self, item):
-        item.pipeline = item.pipeline.activate(self.context)
-        return item
+        return PipelineRule(item.pipeline.activate(self.context))
 
 
 class SquashExtendedTransformator(RuleTransformator):
-- 
2.43.0


From cf02ba70a5f5dd0a02f0bc445e36d5d999d0b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 4/9] fix: applying relations does not change tokens of other
 matches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Leaf objects are shared between all matches of a chart. Constraining forms
of one match in place altered the others: matches were lost ('мамы дочери
книге' with case_relation) and matches already returned changed.
---
 yargy/tree/transformators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yargy/tree/transformators.py b/yargy/tree/transformators.py
index 1fa1660..e936fa6 100644
--- a/yargy/tree/transformators.py
+++ b/yargy/tree/transformators.py
@@ -118,12 +118,16 @@ class RelationsTransformator(InplaceTreeTransformator):
             self.relations.add(item.relation, item.main)
 
 
-class ApplyRelationsTransformator(InplaceTreeTransformator):
+class ApplyRelationsTransformator(TreeTransformator):
     def __init__(self, relations):
         self.relations = relations
 
     def visit_Leaf(self, item):
-        item.token = self.relations.constrain(item.token)
+        # leafs are shared between trees
+        return Leaf(
+            item.predicate,
+            self.relations.constrain(item.token)
+        )
 
 
 class DotTreeTransformator(DotTransformator, InplaceTreeTransformator):
-- 
2.43.0


From fa99501c5caae22d97899a4f65532f8847a2f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 5/9] fix: answers and labels do not depend on hash
 randomization
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

morph_pipeline(['сталь', 'стать']) on 'стали' preferred one key or the other
depending on PYTHONHASHSEED, label of inflected() listed grams in random
order.
---
 yargy/interpretation/normalizer.py | 2 +-
 yargy/pipelines.py                 | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/yargy/interpretation/normalizer.py b/yargy/interpretation/normalizer.py
index 42367ed..33905f5 100644
--- a/yargy/interpretation/normalizer.py
+++ b/yargy/interpretation/normalizer.py
@@ -50,7 +50,7 @@ class InflectedNormalizer(MorphNormalizer):
     @property
     def label(self):
         return 'inflected({grams})'.format(
-            grams=', '.join(self.grams)
+            grams=', '.join(sorted(self.grams))
         )
 
 
diff --git a/yargy/pipelines.py b/yargy/pipelines.py
index 93ac7ed..23c81ad 100644
--- a/yargy/pipelines.py
+++ b/yargy/pipelines.py
@@ -1,5 +1,5 @@
 
-from collections import defaultdict
+from collections import defaultdict, OrderedDict
 
 from .record import Record
 from .check import assert_type
@@ -63,7 +63,8 @@ class MorphPipelineBNFRule(PipelineBNFRule):
 
     def predict(self, token):
         if is_morph_token(token):
-            normalized = {_.normalized for _ in token.forms}
+            # order of forms, order of set depends on hash seed
+            normalized = OrderedDict.fromkeys(_.normalized for _ in token.forms)
             for value in normalized:
                 if value in self.index:
                     for production in self.index[value]:
-- 
2.43.0


From f543980272e0814cb59ed6e942ab0c7dd35bc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 6/9] fix: reconfigured tokenizer does not break started
 streams, rejected rules are not kept

---
 yargy/tokenizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yargy/tokenizer.py b/yargy/tokenizer.py
index 8c47152..5602f44 100644
--- a/yargy/tokenizer.py
+++ b/yargy/tokenizer.py
@@ -57,8 +57,9 @@ class Tokenizer(object):
     def reset(self, rules):
         for rule in rules:
             assert_type(rule, TokenRule)
+        regexp, mapping, types = self.compile(rules)
         self.rules = rules
-        self.regexp, self.mapping, self.types = self.compile(rules)
+        self.regexp, self.mapping, self.types = regexp, mapping, types
 
     def add_rules(self, *rules):
         self.reset(list(rules) + self.rules)
@@ -96,11 +97,12 @@ class Tokenizer(object):
         return regexp, mapping, types
 
     def __call__(self, text):
-        for match in re.finditer(self.regexp, text):
+        regexp, mapping = self.regexp, self.mapping
+        for match in re.finditer(regexp, text):
             name = match.lastgroup
             value = match.group(0)
             start, stop = match.span()
-            type = self.mapping[name]
+            type = mapping[name]
             token = Token(value, Span(start, stop), type)
             yield token
 
-- 
2.43.0


From 938d33764ac3f8efbeb27f3adcbd480d866a1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 7/9] fix: morphology cache does not keep dropped analyzers
 alive

---
 yargy/morph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yargy/morph.py b/yargy/morph.py
index 9193955..6b49c9d 100644
--- a/yargy/morph.py
+++ b/yargy/morph.py
@@ -139,5 +139,9 @@ CACHE_SIZE = 10000
 class CachedMorphAnalyzer(MorphAnalyzer):
     def __init__(self):
         super(CachedMorphAnalyzer, self).__init__()
+        # cache belongs to instance, class level cache keeps every
+        # analyzer (and its dictionary) alive
+        self.cached = lru_cache(CACHE_SIZE)(MorphAnalyzer(self.raw))
 
-    __call__ = lru_cache(CACHE_SIZE)(MorphAnalyzer.__call__)
+    def __call__(self, word):
+        return self.cached(word)
-- 
2.43.0


From 21383118f607868e3cf0e72b1fa0afb5ad472e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 8/9] fix: matches with empty parts do not depend on other
 candidates

---
 yargy/parser.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/yargy/parser.py b/yargy/parser.py
index 72866ce..729894a 100644
--- a/yargy/parser.py
+++ b/yargy/parser.py
@@ -76,6 +76,7 @@ class Column(object):
         self.states = []
         self.hashes = set()
         self.states_index = defaultdict(list)
+        self.empty_index = defaultdict(list)
 
     def __iter__(self):
         return iter(self.states)
@@ -97,6 +98,8 @@ class Column(object):
             next_term = state.next_term
             if is_rule(next_term):
                 self.states_index[id(next_term)].append(state)
+        elif state.start_column is self:
+            self.empty_index[id(state.rule)].append(state)
 
     def __repr__(self):
         return 'Column({index!r}, {token!r}, ...)'.format(
@@ -268,6 +271,7 @@ class Parser(object):
                     next_term = state.next_term
                     if is_rule(next_term):
                         self.predict(column, next_column, next_term)
+                        self.complete_empty(column, state, next_term)
                     elif next_column:
                         self.scan(next_column, next_term, state)
         return chart
@@ -338,11 +342,19 @@ class Parser(object):
 
     def complete(self, column, completed):
         for state in completed.parents:
-            state = State(
-                state.rule, state.production,
-                dot_index=state.dot_index + 1,
-                start_column=state.start_column,
-                stop_column=column,
-                node=state.node.attached(completed.node)
-            )
-            column.append(state)
+            self.advance(column, state, completed)
+
+    def complete_empty(self, column, state, rule):
+        # empty rule may be completed in the column before state
+        for completed in column.empty_index[id(rule)]:
+            self.advance(column, state, completed)
+
+    def advance(self, column, state, completed):
+        state = State(
+            state.rule, state.production,
+            dot_index=state.dot_index + 1,
+            start_column=state.start_column,
+            stop_column=column,
+            node=state.node.attached(completed.node)
+        )
+        column.append(state)
-- 
2.43.0


From 1689fbb06a9400933f00c5990671e34b3ef06682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:32 +0000
Subject: [PATCH 9/9] fix: number nodes of a graph anew for every reading

Graph.source gave numbers out of one dict kept in the graph, so two threads
drawing the same graph could get two nodes with one number.
---
 yargy/dot.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yargy/dot.py b/yargy/dot.py
index 6fdbf5c..6653ec4 100644
--- a/yargy/dot.py
+++ b/yargy/dot.py
@@ -100,7 +100,6 @@ class Graph(Record):
     def __init__(self):
         self.nodes = []
         self.edges = []
-        self.ids = {}
 
     def add_node(self, item, style=None):
         node = Node(item, style)
@@ -110,14 +109,16 @@ class Graph(Record):
         edge = Edge(source, target, style)
         self.edges.append(edge)
 
-    def id(self, item):
+    def id(self, item, ids):
         item_id = id(item)
-        if item_id not in self.ids:
-            self.ids[item_id] = len(self.ids)
-        return self.ids[item_id]
+        if item_id not in ids:
+            ids[item_id] = len(ids)
+        return ids[item_id]
 
     @property
     def source(self):
+        # own for every reader, graph may be drawn by several threads
+        ids = {}
         yield 'digraph G {'
         yield 'graph [{graph_style}];'.format(graph_style=str(self.graph_style))
         yield 'node [{node_style}];'.format(node_style=str(self.node_style))
@@ -129,7 +130,7 @@ class Graph(Record):
                 else '{index}'
             )
             yield pattern.format(
-                index=self.id(node.item),
+                index=self.id(node.item, ids),
                 style=str(node.style)
             )
         for edge in self.edges:
@@ -139,8 +140,8 @@ class Graph(Record):
                 else '{source} -> {target};'
             )
             yield pattern.format(
-                source=self.id(edge.source),
-                target=self.id(edge.target),
+                source=self.id(edge.source, ids),
+                target=self.id(edge.target, ids),
                 style=str(edge.style)
             )
         yield '}'
-- 
2.43.0

