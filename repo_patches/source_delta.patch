From 01355996bb064277a291fc8b526c72b85ced3aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 01/14] verification hooks (cfg bongo_verif): read access to
 private results

---
 src/grammar/base.rs              | 13 +++++++++
 src/grammar/passes/follows.rs    |  7 +++++
 src/grammar/transform/nonnull.rs | 16 ++++++++++++
 src/parsers/lalr.rs              | 45 ++++++++++++++++++++++++++++++++
 src/parsers/mod.rs               |  7 +++++
 src/utils/buffer.rs              | 14 ++++++++++
 src/utils/mergeables.rs          |  7 +++++
 7 files changed, 109 insertions(+)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..7bd1d2c 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -475,6 +475,19 @@ pub struct GrammarErrors<NT> {
   rules_without_prods: BTreeSet<NT>,
 }
 
+#[cfg(bongo_verif)]
+impl<NT> GrammarErrors<NT> {
+  pub fn verif_unreachable(&self) -> &BTreeSet<NT> {
+    &self.unreachable_nonterms
+  }
+  pub fn verif_without_rules(&self) -> &BTreeSet<NT> {
+    &self.nonterms_without_rules
+  }
+  pub fn verif_without_prods(&self) -> &BTreeSet<NT> {
+    &self.rules_without_prods
+  }
+}
+
 impl<NT> GrammarErrors<NT> {
   fn into_result(self) -> Result<(), Self> {
     if self.unreachable_nonterms.is_empty()
diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..d296d1a 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -14,6 +14,13 @@ pub enum FollowsError {
 
 pub struct Follows<T, NT>(BTreeMap<NT, BTreeSet<T>>);
 
+#[cfg(bongo_verif)]
+impl<T, NT> Follows<T, NT> {
+  pub fn verif_sets(&self) -> &BTreeMap<NT, BTreeSet<T>> {
+    &self.0
+  }
+}
+
 impl<T, NT, AK, AV> Pass<T, NT, AK, AV> for Follows<T, NT>
 where
   T: Ord + Clone + 'static,
diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..9bbcf9d 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -66,6 +66,13 @@ pub struct ActionKey<AK> {
   nt_nullable_states: Vec<bool>,
 }
 
+#[cfg(bongo_verif)]
+impl<AK> ActionKey<AK> {
+  pub fn verif_parts(&self) -> (&AK, &[bool]) {
+    (&self.action, &self.nt_nullable_states)
+  }
+}
+
 impl<AK> ToDoc for ActionKey<AK>
 where
   AK: ToDoc,
@@ -87,6 +94,15 @@ pub struct ActionValue<NT, AK, AV> {
   nullable_arguments: BTreeMap<Name, TreeNode<ProdKey<NT, AK>, Void>>,
 }
 
+#[cfg(bongo_verif)]
+impl<NT, AK, AV> ActionValue<NT, AK, AV> {
+  pub fn verif_parts(
+    &self,
+  ) -> (&AV, &BTreeMap<Name, TreeNode<ProdKey<NT, AK>, Void>>) {
+    (&self.parent_value, &self.nullable_arguments)
+  }
+}
+
 impl<NT, AK, AV> ToDoc for ActionValue<NT, AK, AV>
 where
   AV: ToDoc,
diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 47cc181..c989817 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -146,3 +146,48 @@ where
     })
   }
 }
+
+/// Access to the private item sets for verification.
+#[cfg(bongo_verif)]
+pub mod verif {
+  use super::*;
+
+  type Items<'a, T, NT, AK, AV> =
+    BTreeMap<ProdState<'a, T, NT, AK, AV>, BTreeSet<T>>;
+
+  pub struct State<'a, T, NT, AK, AV>(ParseState<'a, T, NT, AK, AV>);
+
+  impl<'a, T, NT, AK, AV> State<'a, T, NT, AK, AV>
+  where
+    T: Ord + Clone + 'static,
+    NT: Ord + Clone + 'static,
+    AK: Ord + Clone + 'static,
+  {
+    pub fn new(
+      passes: &PassContext<'a, T, NT, AK, AV>,
+      items: Items<'a, T, NT, AK, AV>,
+    ) -> anyhow::Result<Self> {
+      ParseState::from_prod_lookahead(passes, items).map(State)
+    }
+
+    pub fn items(&self) -> &Items<'a, T, NT, AK, AV> {
+      &self.0.prods
+    }
+
+    pub fn shift_actions(
+      &self,
+      passes: &PassContext<'a, T, NT, AK, AV>,
+    ) -> anyhow::Result<BTreeMap<T, Self>> {
+      let actions = self.0.shift_actions(passes)?;
+      Ok(actions.into_iter().map(|(t, st)| (t, State(st))).collect())
+    }
+
+    pub fn reducable_actions(&self) -> Vec<AK> {
+      self.0.reducable_actions().cloned().collect()
+    }
+
+    pub fn same_as(&self, other: &Self) -> bool {
+      self.0 == other.0
+    }
+  }
+}
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..6d6449d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -30,6 +30,13 @@ impl<K, T> Token<K, T> {
   }
 }
 
+#[cfg(bongo_verif)]
+impl<K, T> Token<K, T> {
+  pub fn verif_parts(&self) -> (&K, &T) {
+    (&self.kind, &self.value)
+  }
+}
+
 pub trait TokenStream<K, T>: Clone {
   fn next(&self) -> Option<(Token<K, T>, Self)>;
 }
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..1aa5c40 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -169,6 +169,13 @@ impl BufferRange {
 #[derive(Clone)]
 pub struct BufferRangeKey(BufferRange);
 
+#[cfg(bongo_verif)]
+impl BufferRangeKey {
+  pub fn verif_new(range: BufferRange) -> Self {
+    BufferRangeKey(range)
+  }
+}
+
 impl BufferRangeKey {
   pub fn as_str(&self) -> &str {
     self.0.as_str()
@@ -266,6 +273,13 @@ pub struct TextPos {
   byte_offset: usize,
 }
 
+#[cfg(bongo_verif)]
+impl TextPos {
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line(), self.column(), self.byte_offset())
+  }
+}
+
 impl TextPos {
   fn line(&self) -> usize {
     self.line
diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index 182ad05..4664baf 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -12,6 +12,13 @@ pub struct Value<K, V> {
   value: V,
 }
 
+#[cfg(bongo_verif)]
+impl<K, V> Value<K, V> {
+  pub fn verif_new(key: K, value: V) -> Self {
+    Value { key, value }
+  }
+}
+
 impl<K, V> Value<K, V> {
   pub fn key(&self) -> &K {
     &self.key
-- 
2.43.0


From 4c15398a4dea2f4579e1d03a65ce3b09acb94f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 02/14] fix: breadth_first_search includes the initial items in
 its result

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..c181696 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From e81853f38b2fb5bcb5902c7f077a7bb98fcbf134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 03/14] fix: building a grammar reports nonterminals without
 rules instead of panicking

---
 src/grammar/base.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 7bd1d2c..f6205e7 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -422,8 +422,8 @@ where
   }
 
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
-    self
-      .get_nonterminals()
+    std::iter::once(&self.start_symbol)
+      .chain(self.get_nonterminals())
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +440,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From 45345370636a569ca428e4493231bfee3ba11bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 04/14] fix: VecTokenStream yields its tokens

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6d6449d..0a2a65d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -65,7 +65,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From 7325eb7d0f21d44722ada769516406ee2e260b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 05/14] fix: apply_fixed_point terminates

---
 src/utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index c181696..1696343 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,8 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    std::mem::swap(&mut currs, &mut nexts);
+    nexts.clear();
   }
 }
-- 
2.43.0


From 0bcecb9388df5c210845b64e411a9a20e62b1352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 06/14] fix: follow sets look past nullable nonterminals and do
 not panic on empty first sets

---
 src/grammar/passes/follows.rs | 43 +++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d296d1a..ee0d96f 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -36,26 +37,44 @@ where
 
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
 
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
+
     let mut follows = CollectMap::new();
 
     change_loop(|| {
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (index, elem) in elems.iter().enumerate() {
+          if let Elem::NonTerm(nt) = elem {
+            let mut rest_nullable = true;
+            for next_elem in &elems[index + 1..] {
+              match next_elem {
+                Elem::Term(t) => {
+                  changed.merge(follows.insert(nt, t));
+                  rest_nullable = false;
+                }
+                Elem::NonTerm(next_nt) => {
+                  changed.merge(
+                    follows.insert_iter(
+                      nt,
+                      firsts.get(next_nt).into_iter().flatten(),
+                    ),
+                  );
+                  rest_nullable = nullables.is_nullable(next_nt);
+                }
+              }
+              if !rest_nullable {
+                break;
+              }
             }
-          }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+            if rest_nullable {
+              changed.merge(follows.insert_from_key_set(nt, prod.head()));
+            }
+          }
         }
 
         changed
-- 
2.43.0


From cb754bcaa60c08390a8185317b24a5ea98c13a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 07/14] fix: the non-null transform keeps the non-empty
 variants of nullable productions

---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index 9bbcf9d..ff461eb 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -139,10 +139,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -218,6 +214,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    // The production that consumes nothing is not included.
+    if curr_build_state.elems.is_empty() {
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From bc971e2531c1aa025e8a5c8b716bc8a3f366183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 08/14] fix: a failed pass reports its error again instead of a
 recursive loop

---
 src/grammar/passes/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..4e1278f 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,7 +109,12 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
+      if result.is_err() {
+        // The pass is no longer in process.
+        self.passes.borrow_mut().remove(&pass_type);
+      }
+      let value = result?;
       let mut guard = self.passes.borrow_mut();
       guard.insert(pass_type, Rc::new(value));
     };
-- 
2.43.0


From da21b4210c68c46f2c4f397de1dd01dead55714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 09/14] fix: production states at different positions are
 different

---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From 4e2ccd96e5b61f5b35df845969ceb6e19bbd1fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 10/14] fix: the Earley parser rejects unexpected tokens
 instead of panicking

---
 src/parsers/earley.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..f8d37a9 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -77,6 +77,10 @@ where
 
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
+    if new_state.is_empty() {
+      // No production can continue with this token.
+      return None;
+    }
 
     close_state(grammar, tree_handle, &states, &mut new_state);
 
-- 
2.43.0


From adce3be12689d6b7f22627d7d2e4e1bef36e9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 11/14] fix: the Earley parser keeps different divisions of the
 input apart

---
 src/parsers/earley/state.rs | 55 +++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..c27ff0a 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -18,7 +18,7 @@ use {
     utils::{change_iter, WasChanged},
   },
   im::Vector,
-  std::collections::{btree_map, BTreeMap},
+  std::collections::BTreeMap,
 };
 
 #[derive(Derivative)]
@@ -225,8 +225,10 @@ where
 }
 
 pub struct EarleyStateSet<'a, T, NT, AK, AV, V> {
+  /// The sequences of nodes with which each state was reached. Two sequences of
+  /// one state differ before their last node.
   states:
-    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>,
+    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vec<Vector<Node<'a, T, AK, V>>>>,
 }
 
 impl<T, NT, AK, AV, V> Default for EarleyStateSet<'_, T, NT, AK, AV, V> {
@@ -250,9 +252,11 @@ impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn states<'b>(
     &'b self,
   ) -> impl Iterator<Item = EarleyState<'a, T, NT, AK, AV, V>> + 'b {
-    self.states.iter().map(|(key, value)| EarleyState {
-      key: key.clone(),
-      value: value.clone(),
+    self.states.iter().flat_map(|(key, values)| {
+      values.iter().map(move |value| EarleyState {
+        key: key.clone(),
+        value: value.clone(),
+      })
     })
   }
 }
@@ -289,20 +293,30 @@ where
     &mut self,
     state: &EarleyState<'a, T, NT, AK, AV, V>,
   ) -> WasChanged {
-    match self.states.entry(state.key.clone()) {
-      btree_map::Entry::Vacant(vac) => {
-        vac.insert(state.value.clone());
+    let values = self.states.entry(state.key.clone()).or_default();
+    let new_nodes = &state.value;
+    let prefix_len = new_nodes.len().saturating_sub(1);
+
+    // Only the alternatives of the last node can be merged. With different
+    // nodes before it, the sequences divide the input differently.
+    let existing_nodes = values.iter_mut().find(|existing_nodes| {
+      assert_eq!(existing_nodes.len(), new_nodes.len());
+      existing_nodes
+        .iter()
+        .zip(new_nodes)
+        .take(prefix_len)
+        .all(|(existing_node, new_node)| existing_node == new_node)
+    });
+
+    match existing_nodes {
+      Some(existing_nodes) => change_iter(
+        existing_nodes.iter_mut().zip(new_nodes).skip(prefix_len),
+        |(existing_node, new_node)| existing_node.add_all(new_node),
+      ),
+      None => {
+        values.push(new_nodes.clone());
         WasChanged::Changed
       }
-      btree_map::Entry::Occupied(mut occ) => {
-        let existing_nodes = occ.get_mut();
-        let new_nodes = &state.value;
-        assert_eq!(existing_nodes.len(), new_nodes.len());
-        change_iter(
-          existing_nodes.iter_mut().zip(new_nodes),
-          |(existing_node, new_node)| existing_node.add_all(new_node),
-        )
-      }
     }
   }
 
@@ -320,10 +334,11 @@ where
   }
 
   pub fn get_final(&self) -> Option<&Node<'a, T, AK, V>> {
-    for (k, v) in &self.states {
+    for (k, values) in &self.states {
       if k.is_final_key() {
-        assert_eq!(v.len(), 1);
-        return Some(v.get(0).unwrap());
+        assert_eq!(values.len(), 1);
+        assert_eq!(values[0].len(), 1);
+        return values[0].get(0);
       }
     }
 
-- 
2.43.0


From a84f2072072b1acd8e740c2cf66ac5bb6a1d9d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 12/14] fix: LR closures look past nullable elements and do not
 panic on empty first sets

---
 src/parsers/lalr.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index c989817..f95edab 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -2,7 +2,7 @@ use std::collections::{btree_map, BTreeMap, BTreeSet};
 
 use crate::{
   grammar::{
-    passes::{firsts::Firsts, PassContext},
+    passes::{firsts::Firsts, nullable::Nullable, PassContext},
     Elem,
   },
   state::ProdState,
@@ -84,17 +84,32 @@ where
     items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
   ) -> anyhow::Result<Self> {
     let firsts = passes.get_pass::<Firsts<T, NT>>()?;
+    let nullables = passes.get_pass::<Nullable<NT, AK>>()?;
     let mut prods = CollectMap::from_seed(items.into_iter().collect());
 
     change_loop(|| {
       let mut new_expansions = Vec::new();
       for (prod, la) in prods.iter() {
         if let Some(Elem::NonTerm(nt)) = prod.next_elem() {
-          let new_la = match prod.offset_elem(1) {
-            Some(Elem::NonTerm(nt)) => firsts.get(nt).unwrap().clone(),
-            Some(Elem::Term(t)) => std::iter::once(t.clone()).collect(),
-            None => la.clone(),
-          };
+          let mut new_la = BTreeSet::new();
+          for offset in 1.. {
+            match prod.offset_elem(offset) {
+              Some(Elem::NonTerm(nt)) => {
+                new_la.extend(firsts.get(nt).into_iter().flatten().cloned());
+                if !nullables.is_nullable(nt) {
+                  break;
+                }
+              }
+              Some(Elem::Term(t)) => {
+                new_la.insert(t.clone());
+                break;
+              }
+              None => {
+                new_la.extend(la.iter().cloned());
+                break;
+              }
+            }
+          }
 
           new_expansions.push((nt, new_la));
         }
-- 
2.43.0


From 58d4ca5cb60f3752bb21da2b8d2f8c4d1f4ae45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 13/14] fix: making a branch alternative holds no lock while
 its nodes are produced

---
 src/parsers/tree.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..06f9cf8 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,15 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // No lock may be held here: producing the nodes can use this tree.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +340,7 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From 5ad6769cc46f2207af108d116a0e6b48aa155989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 14/14] fix: the dot rendering of a node lists the node itself

---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 06f9cf8..cb49417 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -588,6 +588,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0

