From 35091da6b613a8c51be6c921d0fd1b1bb50f356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 01/14] fix: make the tree module public so that VMs can be
 implemented outside the crate

VM::execute_instruction takes Tree and NodeId, which were unnameable from
outside; the trait's own documentation imports henriks_parsing_project::tree.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From 022bcee0c717d5fa6f2cfeb33bcdc9c5d994f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 02/14] fix: reject scripts with text left over after the start
 rule

Parser::parse returned Ok as soon as the start rule had matched a prefix of
the script (start -> "a"; accepted "ab").
---
 src/script_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..cf80139 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -214,6 +214,14 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        let pos = to_parse.cur_pos();
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos,
+                expected: String::from("end of input"),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From e48159daffb188fbcc69100708e7d4a902abfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 03/14] fix: parse from the start rule given to
 new_from_parser_data

The start index only seeded the FOLLOW sets; parsing always looked for a rule
named "start" and panicked, or used the wrong rule, for any other start.
---
 src/script_parser.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index cf80139..99c43f9 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -60,6 +60,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the non-terminal parsing starts at; None means the one named "start"
+    start_idx: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -113,6 +115,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_idx: None,
         }
     }
 
@@ -141,7 +144,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_idx = Some(start_idx);
         parser
     }
 
@@ -167,6 +171,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_idx: None,
         }
     }
 
@@ -204,13 +209,14 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = self.start_idx.unwrap_or_else(|| {
+            self.elements
+                .iter()
+                .position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
+                .unwrap()
+        });
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 26ee90e06e9596bb10cb37553b6032b5a25a521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 04/14] fix: refuse left-recursive grammars instead of
 recursing without end

get_first_sets never returned for a rule that reaches itself without
consuming anything, so building such a parser overflowed the stack.
---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 26 +++++++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..b9b4fef 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -104,6 +104,9 @@ pub enum GrammarError {
         reason: String,
         pos: usize,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     GraphNodeAlreadyExistsError {
         node_name: usize,
     },
@@ -137,6 +140,9 @@ impl fmt::Display for GrammarError {
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::GraphNodeAlreadyExistsError { .. } => {
                 write!(f, "graph node already exists")
             }
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..b3a0a98 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,7 +47,7 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data, &mut HashSet::new())?;
     }
     Ok(first_sets)
 }
@@ -56,6 +56,7 @@ fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut HashSet<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -67,10 +68,15 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, parser_data, in_progress)?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -106,6 +112,7 @@ fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut HashSet<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -113,11 +120,20 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                parser_data,
+                in_progress,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set = get_set_first_set_of_element(
+                        *el_ix,
+                        first_sets,
+                        parser_data,
+                        in_progress,
+                    )?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index 99c43f9..4126544 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From 970969f7de11237adfafed65092d09c61488c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 05/14] fix: select alternatives by their own predict sets

Using the rule's steuer set (FIRST of the leading element plus its FOLLOW
set) refused LL(1) grammars, missed conflicts for alternatives that can be
empty as a whole, and panicked on an empty leading terminal.
---
 src/steuer_map.rs | 85 ++++++++++++++++++-----------------------------
 1 file changed, 32 insertions(+), 53 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..0c951fa 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -5,14 +5,14 @@
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
+use crate::first_sets::first_set_of_partial;
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +29,24 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
+    let rules = std::mem::take(&mut parser_data.parse_rules.rules);
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    for (rule_name, productions) in rules.into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,54 +61,34 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+/// Adds the lookaheads that select `prod`: everything that can begin it and, if it
+/// can be empty, everything that can follow its rule.
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
-    let prod_ref = Rc::clone(&prod);
-    let prod = &*prod;
-    match prod {
-        Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
-                    }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
-                }
-            }
-            Ok(())
-        }
-        Production::Empty => {
-            let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
-                index: cur_rule_name,
-            })?;
-            fill_with_steuer_set(follow_set, steuer_map, &prod_ref, cur_rule_name)?;
-
-            Ok(())
-        }
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
+    let first_set = match &*prod {
+        Production::NotEmpty(el) => first_set_of_partial(el, first_sets, parser_data)?,
+        Production::Empty => HashSet::from([SetMemberWithEmpty::Empty]),
+    };
+    let mut steuer_menge = first_set
+        .iter()
+        .filter_map(|x| SetMember::try_from(*x).ok())
+        .collect::<HashSet<_>>();
+    if first_set.contains(&SetMemberWithEmpty::Empty) {
+        let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
+            index: cur_rule_name,
+        })?;
+        steuer_menge.extend(follow_set);
     }
+    fill_with_steuer_set(&steuer_menge, steuer_map, &prod, cur_rule_name)
 }
 
 fn fill_with_steuer_set(
-- 
2.43.0


From 23d880a2e3799751bb9cd5b8ac909baf1650c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 06/14] fix: peeking at a bounded reader no longer changes
 where it stops

Peeking toggled the escape state, so after peeking at an escaped stop
character the next read ended early. peek_mut looked past the stop
character, and a stop character without an escape character never stopped.
---
 src/peekables.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..5601a7d 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,10 +135,7 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 }
 
@@ -154,6 +151,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,10 +161,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 
     fn next_if_eq(&mut self, expected: &char) -> Option<char> {
@@ -172,10 +169,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 }
 
@@ -183,20 +177,20 @@ impl<'a, T> ParseProcess<'a, T>
 where
     T: TPeekable<Item = char>,
 {
+    /// Whether the next character may be read, that is whether it is not an unescaped stop character.
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
-                return false;
-            } else {
-                self.escape = false;
-            }
+        match (self.to_parse.peek(), self.stop_on) {
+            (Some(&c), Some(stop_char)) => c != stop_char || self.escape,
+            _ => true,
         }
-        true
     }
-}
 
+    /// Records that `res` was read from the source.
+    fn consumed(&mut self, res: Option<char>) -> Option<char> {
+        if res.is_some() {
+            self.current_position += 1;
+            self.escape = res == self.escape_char;
+        }
+        res
+    }
+}
-- 
2.43.0


From 9abf12c84d2c447cbefe8254bc71bd1ecca988a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 07/14] fix: the counting VM reads its action section to the
 end

It left the text in place, so any non-empty section made reading the rules fail.
---
 src/vms/counting_vm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..5866cc5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,12 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 76ca5a9f2406caad9769432dbe9f2d9e1cf27bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 08/14] fix: removed tree nodes stay removed and their slots
 are reused once

remove_branch freed the removed node's slot twice, so two later nodes shared
it; get_node and node_exists looked for the node's key instead of its slot in
the free list; adding to a removed parent lost a free slot, which made a
removed node visible again; children of a dead handle were those of whatever
used its slot.
---
 src/tree.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..6ef9e72 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
@@ -139,7 +141,10 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let node = match self.get_node(node_id) {
+            Ok(node) => node,
+            Err(_) => return children,
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
@@ -196,7 +201,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +227,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -241,7 +246,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 9476d0f229f21467a7353aae2884f57f4b402fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 09/14] fix: looking up a node by index in an empty named graph
 is an error, not a panic

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 1215413a02226972cfcde5da48ada14d8d577443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 10/14] fix: stack machine results that do not fit set the
 error code instead of panicking

"1 2 -" or a number with too many digits made the simple stack machine
overflow, which panics in debug builds and is a wrong value in release builds.
---
 src/vms/simple_stack_vm.rs | 33 ++++++++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 34 +++++++++++++++++++++++++++-------
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..e079636 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -28,6 +28,25 @@ pub enum Instruction {
     Pow(usize),
 }
 
+impl SimpleStackVmState {
+    fn push_result(&mut self, result: Option<usize>) {
+        match result {
+            Some(res) => self.stack.push(res),
+            None => self.error = 3, // Result does not fit
+        }
+    }
+}
+
+/// `val * base^exponent + addend`, if it fits.
+fn pow_mul_add(val: usize, base: usize, exponent: usize, addend: usize) -> Option<usize> {
+    let power = if val == 0 {
+        0
+    } else {
+        base.checked_pow(u32::try_from(exponent).ok()?)?
+    };
+    val.checked_mul(power)?.checked_add(addend)
+}
+
 pub struct SimpleStackVm {}
 
 impl VM for SimpleStackVm {
@@ -74,16 +93,14 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    state.push_result(state.reg.checked_add(var));
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    state.push_result(var.checked_sub(state.reg));
                 } else {
                     state.error = 1
                 }
@@ -143,8 +160,7 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    state.push_result(pow_mul_add(val, *base, state.reg, state.reg2));
                 } else {
                     state.error = 1
                 }
@@ -152,7 +168,10 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3, // Result does not fit
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..7fbb0a7 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -32,6 +32,26 @@ pub struct StackVmState {
     pub instruction_counter: usize,
     pub instructions: Vec<Instruction>,
 }
+impl StackVmState {
+    fn push_result(&mut self, result: Option<isize>) {
+        match result {
+            Some(res) => self.stack.push(res),
+            None => self.error = 3, // Result does not fit
+        }
+    }
+}
+
+/// `val * base^exponent + addend`, if it fits and is a whole number.
+fn pow_mul_add(val: isize, base: usize, exponent: isize, addend: isize) -> Option<isize> {
+    let power = if val == 0 && exponent >= 0 {
+        0
+    } else {
+        let exponent = u32::try_from(exponent).ok()?;
+        isize::try_from(base).ok()?.checked_pow(exponent)?
+    };
+    val.checked_mul(power)?.checked_add(addend)
+}
+
 pub struct StackVm {}
 
 impl VM for StackVm {
@@ -98,16 +118,14 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    state.push_result(state.reg.checked_add(var));
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    state.push_result(var.checked_sub(state.reg));
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +185,7 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    state.push_result(pow_mul_add(val, *base, state.reg, state.reg2));
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +193,10 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = 3, // Result does not fit
+                }
             }
         }
     }
-- 
2.43.0


From 7ef4089865afddc0b8086474a51b6cc2ef11b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 11/14] fix: refuse stack machine constants that do not fit
 instead of wrapping them

PushConst 9223372036854775808 pushed a negative number.
---
 src/vms/stack_vm.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 7fbb0a7..ca0f2c5 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -76,8 +76,9 @@ impl VM for StackVm {
                 "Add" => instructions.push(Instruction::Add),
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    let val = isize::try_from(parse_usize(to_parse)?)
+                        .map_err(|_| ParserError::Impossible)?;
+                    instructions.push(Instruction::RegAddConst(val));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -86,8 +87,9 @@ impl VM for StackVm {
                 "PopDiscard" => instructions.push(Instruction::PopDiscard),
                 "PushConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    let val = isize::try_from(parse_usize(to_parse)?)
+                        .map_err(|_| ParserError::Impossible)?;
+                    instructions.push(Instruction::PushConst(val));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From be53f105aecaa9e0e77437507b36d851b2c046c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 12/14] fix: read the documented $IGNORE directive

The rule parser wove ignorable rules in, but had no code to read the
directive that names them, so every rule file using it was refused.
---
 src/rule_parsing.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..b209713 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_directive()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -62,6 +66,24 @@ where
         Ok(&self.parser_data.parse_rules)
     }
 
+    /// Parses what follows the `$` of a directive that applies to all rules after it.
+    fn parse_directive(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(ParserError::UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let ignored = parse_var_name(&mut self.parse_process)?;
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        let index = self.parser_data.get_or_add_non_terminal(&ignored);
+        self.parser_data.parse_rules.ignore = Some(index);
+        Ok(())
+    }
+
     fn edit_rules(&mut self) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
-- 
2.43.0


From 42472308fcff25191d4bcb5ad218cc5379cee15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 13/14] fix: refuse unknown rule overrides instead of ignoring
 them

---
 src/rule_parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index b209713..983464f 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -218,6 +218,7 @@ where
         let mut ignore_this = self.parser_data.parse_rules.ignore.clone();
         if self.parse_symbol('$').is_ok() {
             self.parse_symbol('[')?;
+            let pos = self.parse_process.cur_pos();
             let varname = parse_var_name(&mut self.parse_process)?;
             self.parse_whitespace();
             self.parse_symbol(':')?;
@@ -233,6 +234,11 @@ where
                         ),
                     ));
                 }
+            } else {
+                return Err(ParserError::UnknownSpecialOperation {
+                    operation: varname,
+                    pos,
+                });
             }
 
             self.parse_symbol(']')?;
-- 
2.43.0


From 37aba7349901cae70c840d5fd686b190da88e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 14/14] fix: powers of 0 and 1 fit whatever the exponent

---
 src/vms/simple_stack_vm.rs |  9 +++++----
 src/vms/stack_vm.rs        | 13 ++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index e079636..22303c1 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -39,10 +39,11 @@ impl SimpleStackVmState {
 
 /// `val * base^exponent + addend`, if it fits.
 fn pow_mul_add(val: usize, base: usize, exponent: usize, addend: usize) -> Option<usize> {
-    let power = if val == 0 {
-        0
-    } else {
-        base.checked_pow(u32::try_from(exponent).ok()?)?
+    let power = match base {
+        _ if val == 0 => 0,
+        0 if exponent > 0 => 0,
+        1 => 1,
+        _ => base.checked_pow(u32::try_from(exponent).ok()?)?,
     };
     val.checked_mul(power)?.checked_add(addend)
 }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index ca0f2c5..13a46ca 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -43,11 +43,14 @@ impl StackVmState {
 
 /// `val * base^exponent + addend`, if it fits and is a whole number.
 fn pow_mul_add(val: isize, base: usize, exponent: isize, addend: isize) -> Option<isize> {
-    let power = if val == 0 && exponent >= 0 {
-        0
-    } else {
-        let exponent = u32::try_from(exponent).ok()?;
-        isize::try_from(base).ok()?.checked_pow(exponent)?
+    let power = match base {
+        _ if val == 0 && exponent >= 0 => 0,
+        _ if exponent == 0 => 1,
+        0 if exponent > 0 => 0,
+        1 => 1,
+        _ => isize::try_from(base)
+            .ok()?
+            .checked_pow(u32::try_from(exponent).ok()?)?,
     };
     val.checked_mul(power)?.checked_add(addend)
 }
-- 
2.43.0

