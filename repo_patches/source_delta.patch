From 8a729808f8b49318dce26451be5a0cf216028c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 01/26] fix: decode serialized ATN values as unsigned 16-bit
 words

A literal, range bound or lexer rule argument of U+FFFE/U+FFFF was decoded
as -2/-1, so '\uFFFF' matched end of input and \u0000-\uFFFF matched nothing.
---
 src/atn_deserializer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..3af7cab 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -54,11 +54,11 @@ impl ATNDeserializer {
 
     pub fn deserialize(&self, data: Chars<'_>) -> ATN {
         let mut data = data.clone().map(|ch| {
-            let mut ch = ch as isize;
+            let ch = ch as isize;
             // decode surrogates
-            ch = if ch > 0xFFFF { ch - 0x3000 } else { ch };
-            ch -= 2;
-            ch
+            let ch = if ch > 0xFFFF { ch - 0x3000 } else { ch };
+            // serialized values are unsigned 16-bit words
+            (ch - 2) & 0xFFFF
         });
 
         self.check_version(data.next().unwrap() + 2);
@@ -205,7 +205,10 @@ impl ATNDeserializer {
             let s = data.next().unwrap() as usize;
             atn.rule_to_start_state[i] = s;
             if atn.grammar_type == ATNType::LEXER {
-                let token_type = data.next().unwrap();
+                let mut token_type = data.next().unwrap();
+                if token_type == 0xFFFF {
+                    token_type = super::token::TOKEN_EOF;
+                }
 
                 atn.rule_to_token_type.push(token_type);
             }
-- 
2.43.0


From 29362701682216392a805678c18aae6aa0202f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 02/26] fix: wildcard transition matches the first and last
 symbol of the vocabulary

'.' did not match U+0000 and U+10FFFF in lexers, nor the highest token type
in parser prediction.
---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From b4bcf4025efff21db1b55a277b6704fbeec2a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:02 +0000
Subject: [PATCH 03/26] fix: lexer DFA states that differ only in their actions
 are distinct

The cached hash of a lexer action executor was not updated when actions were
appended or their offset fixed, and lexer DFA states were looked up by hash
alone, so states with different actions were merged and the wrong (or no)
lexer commands and custom actions ran.
---
 src/lexer_action_executor.rs | 10 ++++------
 src/lexer_atn_simulator.rs   | 25 +++++++++++--------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..979e171 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map_or_else(Vec::new, |it| it.lexer_actions.clone());
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,7 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..f86c6f9 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -1,7 +1,6 @@
 //! Implementation of lexer automata(DFA)
 use std::cell::Cell;
 
-use std::ops::Deref;
 use std::rc::Rc;
 use std::sync::Arc;
 use std::usize;
@@ -691,19 +690,17 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        // states are the same only if they are equal, hash can collide
+        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
+            return existing;
+        }
+        let dfastate_index = states.len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+        states.push(dfastate);
+        same_hash.push(dfastate_index);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 526c6f77af5a330c50f269dc10640b11150f8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:31 +0000
Subject: [PATCH 04/26] fix: mid-token lexer actions run at the position of the
 current token

The offset of an action inside a token was cached in the DFA with the first
token that reached the state and reused for tokens of other lengths.
---
 src/lexer_action_executor.rs |  8 ++++++++
 src/lexer_atn_simulator.rs   | 12 +++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 979e171..87b56af 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -44,6 +44,14 @@ impl LexerActionExecutor {
         LexerActionExecutor::new(lexer_actions)
     }
 
+    /// Whether there are position dependent actions which `fix_offset_before_match` would change
+    pub fn has_unfixed_offset(&self) -> bool {
+        self.lexer_actions.iter().any(|action| match action {
+            LexerAction::LexerIndexedCustomAction { .. } => false,
+            _ => action.is_position_dependent(),
+        })
+    }
+
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
         for action in self.lexer_actions.iter_mut() {
             match action {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index f86c6f9..ede1296 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -284,7 +284,7 @@ impl LexerATNSimulator {
         lexer: &mut impl Lexer<'input>,
     ) -> DFAStateRef {
         let mut reach = ATNConfigSet::new_ordered();
-        self.get_reachable_config_set(
+        let fixed_offset = self.get_reachable_config_set(
             &dfa.as_ref().unwrap().states[s].configs,
             &mut reach,
             _t,
@@ -302,7 +302,9 @@ impl LexerATNSimulator {
             return ERROR_DFA_STATE_REF;
         }
 
-        let supress_edge = reach.has_semantic_context();
+        // an action offset fixed here depends on how many symbols were matched so far,
+        // so such target is not valid for other tokens that reach `s`
+        let supress_edge = reach.has_semantic_context() || fixed_offset;
         reach.set_has_semantic_context(false);
         let to = self.add_dfastate(&mut dfa_mut, Box::new(reach));
         if !supress_edge {
@@ -315,6 +317,7 @@ impl LexerATNSimulator {
         //        states.get(to).unwrap()
     }
 
+    /// Returns true if offset of some position dependent action was fixed along the way
     fn get_reachable_config_set<'input>(
         &self,
         // _states: &V,
@@ -323,8 +326,9 @@ impl LexerATNSimulator {
         _reach: &mut ATNConfigSet,
         _t: isize,
         lexer: &mut impl Lexer<'input>,
-    ) {
+    ) -> bool {
         let mut skip_alt = 0;
+        let mut fixed_offset = false;
         //        println!(" --- source {:?}", _closure.configs.iter().map(|it|it.get_state()).collect::<Vec<_>>());
         for config in _closure.get_items() {
             let current_alt_reached_accept_state = config.get_alt() == skip_alt;
@@ -341,6 +345,7 @@ impl LexerATNSimulator {
             for tr in atn_state.get_transitions() {
                 if let Some(target) = tr.get_reachable_target(_t) {
                     let exec = config.get_lexer_executor().map(|x| {
+                        fixed_offset |= x.has_unfixed_offset();
                         x.clone()
                             .fix_offset_before_match(lexer.input().index() - self.start_index)
                     });
@@ -360,6 +365,7 @@ impl LexerATNSimulator {
                 }
             }
         }
+        fixed_offset
     }
 
     //    fn get_reachable_target<T>(&self, states: &T, _trans: &Transition, _t: isize) -> &ATNState
-- 
2.43.0


From 6a96be51ca0524678ddc6d8a2123a884b66c7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:24 +0000
Subject: [PATCH 05/26] fix: a token set by a lexer action is returned instead
 of dropped

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From 7ffbddb944fe1f18bb4f18ddc8ff96c2d049cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 06/26] fix: IntervalSet::add_interval merges every interval
 the added one reaches

After merging one following interval the loop skipped the next one and
compared against the stale, smaller interval, so adding a range that spans
three or more existing intervals left overlapping intervals behind.
---
 src/interval_set.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..d2d18bf 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,22 +130,19 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
-                // should be merged with next interval in list
-                loop {
-                    i += 1;
-                    let next = match self.intervals.get(i) {
-                        Some(v) => v,
-                        None => break,
-                    };
+                // should be merged with next intervals in list
+                i += 1;
+                while let Some(next) = self.intervals.get(i) {
                     if !bigger.adjacent(next) && bigger.disjoint(next) {
                         break;
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
+                    bigger = bigger.union(next);
+                    self.intervals[i - 1] = bigger; // set to 3 merged ones
                     self.intervals.remove(i);
                 }
                 return;
-- 
2.43.0


From 13a21074fe55fbd138227ac9f1b35f899ea28b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 07/26] fix: error recovery no longer inserts the same missing
 token forever

Single token insertion consumes no input. Inside a loop whose body predicts
the same path again the same token was conjured up endlessly and parsing an
invalid input never returned, growing the tree without bound. Insertion is
now refused the second time in the same state at the same position, like
the existing failsafe in recover().
---
 src/error_strategy.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..806b448 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -144,6 +144,8 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     error_recovery_mode: bool,
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
+    /// (input index, state) of the tokens conjured up since the last matched token
+    inserted_at: Vec<(isize, isize)>,
     next_tokens_state: isize,
     next_tokens_ctx: Option<Rc<Ctx::Type>>,
 }
@@ -163,6 +165,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             error_recovery_mode: false,
             last_error_index: -1,
             last_error_states: None,
+            inserted_at: Vec::new(),
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_ctx: None,
         }
@@ -182,6 +185,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.error_recovery_mode = false;
         self.last_error_index = -1;
         self.last_error_states = None;
+        self.inserted_at.clear();
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -285,6 +289,16 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             Some(recognizer.get_parser_rule_context().deref()),
         );
         if expect_at_ll2.contains(current_token) {
+            // Like the failsafe in `recover`: inserting a token consumes no input, so inserting
+            // it again in the same state at the same position would never end.
+            let position = (
+                recognizer.get_input_stream_mut().index(),
+                recognizer.get_state(),
+            );
+            if self.inserted_at.contains(&position) {
+                return false;
+            }
+            self.inserted_at.push(position);
             self.report_missing_token(recognizer);
             return true;
         }
-- 
2.43.0


From 22141f83d02d250ab2ea9cdb2f438e96c073dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:15 +0000
Subject: [PATCH 08/26] fix: a failed prediction restores the input position
 and releases its marker

---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..02965b6 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From a578a5bda21ea3e1f51f6046aa31a64d1f4e3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:35 +0000
Subject: [PATCH 09/26] fix: CommonTokenStream starts at the first on-channel
 token and looks back only over on-channel tokens

---
 src/common_token_stream.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..bc3ddd4 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,10 +106,15 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.seek_first_on_channel();
         r
     }
 
+    fn seek_first_on_channel(&mut self) {
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
+    }
+
     fn lt_inner(&mut self, k: isize) -> Option<&<T::TF as TokenFactory<'input>>::Tok> {
         let mut i = self.base.p;
         let mut n = 1; // we know tokens[p] is a good one
@@ -129,6 +134,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     pub fn reset(&mut self) {
         self.base.p = 0;
         self.base.current_token_index = 0;
+        self.seek_first_on_channel();
     }
 
     /// Creates iterator over this token stream
@@ -167,11 +173,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -212,7 +221,10 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
         let mut i = self.base.p;
         let mut n = 1;
         // find k good tokens looking backwards
-        while n <= k && i > 0 {
+        while n <= k {
+            if i <= 0 {
+                return None;
+            }
             // skip off-channel tokens
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
-- 
2.43.0


From 9a7b8bab5d8e5c2d1e1c9f8f0c6a04721e465b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:23 +0000
Subject: [PATCH 10/26] fix: parse listeners get an enter event for every exit
 event

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e5cf988..1d3eb1a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -144,6 +144,8 @@ pub struct BaseParser<
     precedence_stack: Vec<isize>,
 
     parse_listeners: Vec<Box<T>>,
+    /// the current rule was entered, but listeners have not been told yet
+    enter_event_pending: bool,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
 
@@ -410,6 +412,7 @@ where
             input,
             precedence_stack: vec![0],
             parse_listeners: vec![],
+            enter_event_pending: false,
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
             ext,
@@ -503,6 +506,7 @@ where
     }
 
     pub fn trigger_enter_rule_event(&mut self) {
+        self.enter_event_pending = false;
         let ctx = self.ctx.as_deref().unwrap();
         for listener in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
@@ -542,6 +546,7 @@ where
         self.set_state(state);
         localctx.set_start(self.input.lt(1).cloned());
         self.ctx = Some(localctx);
+        self.enter_event_pending = true;
         //        let mut localctx = Rc::get_mut(self.ctx.as_mut().unwrap()).unwrap();
         if self.build_parse_trees {
             self.add_context_to_parse_tree()
@@ -561,6 +566,10 @@ where
                 .unwrap()
                 .set_stop(self.input.lt(-1).cloned())
         }
+        if self.enter_event_pending {
+            // the rule failed before an alternative was entered
+            self.trigger_enter_rule_event();
+        }
         self.trigger_exit_rule_event();
         self.set_state(self.get_parser_rule_context().get_invoking_state());
         let parent = self.ctx.as_ref().unwrap().get_parent_ctx();
-- 
2.43.0


From 91a11bc0f312af36c2e32a8ba69213dea1fddd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:47 +0000
Subject: [PATCH 11/26] fix: whitespace in a no-viable-alternative message is
 escaped as in the other messages

---
 src/error_strategy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 806b448..84002a9 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -202,7 +202,10 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
 
-        format!("no viable alternative at input '{}'", input)
+        format!(
+            "no viable alternative at input {}",
+            self.escape_ws_and_quote(&input)
+        )
     }
 
     fn report_input_mismatch<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
-- 
2.43.0


From f18b05fa9fad5885b00d940862c451216ced2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:50 +0000
Subject: [PATCH 12/26] fix: a full-context prediction error names the token
 prediction stopped at

---
 src/parser_atn_simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 02965b6..da01f70 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,8 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    // the offending token is the one prediction stopped at
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +485,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 511cd2cdb0caa970cc022eeea7d009e0944b888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:26 +0000
Subject: [PATCH 13/26] fix: UnbufferedTokenStream looks back safely and gives
 EOF beyond the end

---
 src/token_stream.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..c20ec00 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -1,6 +1,7 @@
 //! `IntStream` that produces tokens for Parser
 use std::borrow::Borrow;
 use std::cmp::min;
+use std::convert::TryFrom;
 use std::marker::PhantomData;
 
 use crate::char_stream::InputData;
@@ -73,7 +74,6 @@ impl<'a, 'input: 'a, T: TokenStream<'input>> Iterator for TokenIter<'a, 'input,
 pub struct UnbufferedTokenStream<'input, T: TokenSource<'input>> {
     token_source: T,
     pub(crate) tokens: Vec<<T::TF as TokenFactory<'input>>::Tok>,
-    //todo prev token for lt(-1)
     pub(crate) current_token_index: isize,
     markers_count: isize,
     pub(crate) p: isize,
@@ -154,13 +154,17 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
-        }
-
-        self.sync(i);
-
-        self.tokens.get((self.p + i - 1) as usize)
+        let index = if i < 0 {
+            self.p + i
+        } else {
+            self.sync(i);
+            // looking beyond the end of the stream gives EOF
+            min(self.p + i, self.tokens.len() as isize) - 1
+        };
+
+        usize::try_from(index)
+            .ok()
+            .and_then(move |index| self.tokens.get(index))
     }
 
     #[inline]
@@ -239,8 +243,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
 
         self.markers_count -= 1;
         if self.markers_count == 0 {
-            if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+            // previous token stays available for `lt(-1)`
+            if self.p > 1 {
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -258,7 +263,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
-- 
2.43.0


From e29f82e4a005ff60046d55fbb53ea4b383873f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 14/26] fix: iterating over a stream ends at EOF instead of
 consuming it

---
 src/int_stream.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..4e68e98 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,13 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
+            // EOF can not be consumed
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 5e1122f9c9420f6c38a9114d5ff1f55e7556fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:59 +0000
Subject: [PATCH 15/26] fix: a deferred mismatch error keeps the rule stack of
 the state it is about

---
 src/error_strategy.rs | 35 +++++++++++++++++------------------
 src/errors.rs         |  2 +-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 84002a9..c0b0cc7 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -3,6 +3,7 @@ use std::borrow::Borrow;
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
@@ -14,7 +15,7 @@ use crate::errors::{ANTLRError, FailedPredicateError, InputMisMatchError, NoViab
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
 use crate::parser_rule_context::ParserRuleContext;
-use crate::rule_context::{CustomRuleContext, RuleContext};
+use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_DEFAULT_CHANNEL, TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE};
 use crate::token_factory::TokenFactory;
 use crate::transition::RuleTransition;
@@ -147,7 +148,10 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     /// (input index, state) of the tokens conjured up since the last matched token
     inserted_at: Vec<(isize, isize)>,
     next_tokens_state: isize,
-    next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    /// invoking states of the rules that were active in `next_tokens_state`,
+    /// contexts can't be used for that because they can be changed or dropped before error is reported
+    next_tokens_stack: Option<Vec<isize>>,
+    pd: PhantomData<Rc<Ctx::Type>>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -167,7 +171,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_states: None,
             inserted_at: Vec::new(),
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
-            next_tokens_ctx: None,
+            next_tokens_stack: None,
+            pd: PhantomData,
         }
     }
 
@@ -436,19 +441,12 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             return Ok(self.get_missing_symbol(recognizer));
         }
 
-        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
-            Err(ANTLRError::InputMismatchError(
-                InputMisMatchError::with_state(
-                    recognizer,
-                    self.next_tokens_state,
-                    next_tokens_ctx.clone(),
-                ),
-            ))
-        } else {
-            Err(ANTLRError::InputMismatchError(InputMisMatchError::new(
-                recognizer,
-            )))
+        let mut error = InputMisMatchError::new(recognizer);
+        if let Some(next_tokens_stack) = &self.next_tokens_stack {
+            error.base.offending_state = self.next_tokens_state;
+            error.base.states_stack = next_tokens_stack.clone();
         }
+        Err(ANTLRError::InputMismatchError(error))
         //        Err(ANTLRError::IllegalStateError("aaa".to_string()))
     }
 
@@ -486,14 +484,15 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
         if next_tokens.contains(next) {
             self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.next_tokens_stack = None;
             return Ok(());
         }
 
         if next_tokens.contains(TOKEN_EPSILON) {
-            if self.next_tokens_ctx.is_none() {
+            if self.next_tokens_stack.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                self.next_tokens_stack =
+                    Some(states_stack(recognizer.get_parser_rule_context().clone()).collect());
             }
             return Ok(());
         }
diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..3814c83 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -119,7 +119,7 @@ pub struct BaseRecognitionError {
     //    recognizer: Box<Recognizer>,
     pub offending_token: OwningToken,
     pub offending_state: isize,
-    states_stack: Vec<isize>, // ctx: Rc<dyn ParserRuleContext>
+    pub(crate) states_stack: Vec<isize>, // ctx: Rc<dyn ParserRuleContext>
                               //    input: Box<IntStream>
 }
 
-- 
2.43.0


From 7c9cd7d1ca1679f9b7ac074e8b4574aebbd8f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:53 +0000
Subject: [PATCH 16/26] fix: operands of a semantic context have a fixed order

---
 src/semantic_context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index a32f5e9..6d772e9 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow::{Borrowed, Owned};
 use std::borrow::{Borrow, Cow};
 use std::cmp::Ordering;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use crate::parser::{Parser, ParserNodeType};
 
@@ -18,7 +18,7 @@ use crate::parser::{Parser, ParserNodeType};
 //     }
 // }
 
-#[derive(Clone, Eq, PartialEq, Hash, Debug)]
+#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
 pub enum SemanticContext {
     Predicate {
         rule_index: isize,
@@ -137,7 +137,7 @@ impl SemanticContext {
     }
 
     pub fn new_and(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = BTreeSet::new();
         if let SemanticContext::AND(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -163,7 +163,7 @@ impl SemanticContext {
     }
 
     pub fn new_or(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = BTreeSet::new();
         if let SemanticContext::OR(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -239,7 +239,7 @@ fn sort_prec_pred(a: &&SemanticContext, b: &&SemanticContext) -> Ordering {
     }
 }
 
-fn filter_precedence_predicate(collection: &mut HashSet<SemanticContext>) -> Vec<SemanticContext> {
+fn filter_precedence_predicate(collection: &mut BTreeSet<SemanticContext>) -> Vec<SemanticContext> {
     let mut result = vec![];
     collection.retain(|it| {
         if let SemanticContext::Precedence(_) = it {
-- 
2.43.0


From f1e43d39e19776a8708bfd15afcbaa3a71622264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:42 +0000
Subject: [PATCH 17/26] fix: seeking forward to a token that was not fetched
 yet fetches it instead of panicking

---
 src/token_stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index c20ec00..68d8bbd 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -279,8 +279,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            // the token at `index` itself has to be fetched, seeking past the end stops at EOF
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From 5d67dbf21a679e132d72fe3226c8075ecce0db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:13 +0000
Subject: [PATCH 18/26] hook: re-export prediction contexts with --cfg vh_hooks

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 18b2ee0..0455b63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -174,6 +174,15 @@ mod atn_type;
 // mod context_factory;
 pub mod rule_context;
 pub mod vocabulary;
+
+/// Access to internals for verification harnesses; only built with `--cfg vh_hooks`
+#[cfg(vh_hooks)]
+#[doc(hidden)]
+pub mod vh_hooks {
+    pub use crate::prediction_context::{
+        MurmurHasherBuilder, PredictionContext, PREDICTION_CONTEXT_EMPTY_RETURN_STATE,
+    };
+}
 //#[cfg(test)]
 // tests are either integration tests in "tests" foulder or unit tests in some modules
 
-- 
2.43.0


From eb144208b183035a433983db8395306131fdafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:30 +0000
Subject: [PATCH 19/26] fix: lexer actions run without holding the lock of the
 DFA

---
 src/lexer_atn_simulator.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index ede1296..a856df8 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -386,17 +386,15 @@ impl LexerATNSimulator {
             //            let lexer_action_executor;
             self.accept(lexer.input());
 
-            let prediction = {
-                let dfa_state_prediction = &dfa.states[state];
-                //                println!("accepted, prediction = {}, on dfastate {}", dfa_state_prediction.prediction, dfa_state_prediction.state_number);
-                //                lexer_action_executor = dfa_state_prediction.lexer_action_executor.clone();
-                //                let recog = self.recog.clone();
-                if let Some(x) = dfa_state_prediction.lexer_action_executor.as_ref() {
-                    x.execute(lexer, self.start_index)
-                }
-
-                dfa_state_prediction.prediction
-            };
+            let dfa_state_prediction = &dfa.states[state];
+            //                println!("accepted, prediction = {}, on dfastate {}", dfa_state_prediction.prediction, dfa_state_prediction.state_number);
+            let prediction = dfa_state_prediction.prediction;
+            let lexer_action_executor = dfa_state_prediction.lexer_action_executor.clone();
+            // actions are user code which may run another lexer over the same DFA
+            drop(dfa);
+            if let Some(x) = lexer_action_executor {
+                x.execute(lexer, self.start_index)
+            }
 
             //            self.lexer_action_executor = lexer_action_executor;
             Ok(prediction)
-- 
2.43.0


From 4c77c7657fdfa9ff99f0dab0170794064fa090f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 20/26] fix: parse listeners get the enter event of a rule
 before the events of tokens deleted at its start

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1d3eb1a..93149ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -269,6 +269,10 @@ where
             self.input.consume();
         }
         if self.build_parse_trees || !self.parse_listeners.is_empty() {
+            if self.enter_event_pending {
+                // recovery consumes token before an alternative was entered
+                self.trigger_enter_rule_event();
+            }
             if err_handler.in_error_recovery_mode(self) {
                 // todo report ructc inference issue
                 let node: Rc<ErrorNode<'_, Ctx>> = self.create_error_node(o.clone());
@@ -584,6 +588,9 @@ where
             new_ctx.set_alt_number(alt_num);
 
             let ctx = self.ctx.as_ref().unwrap();
+            if !Rc::ptr_eq(&new_ctx, ctx) {
+                self.enter_event_pending = true;
+            }
             if self.build_parse_trees && self.ctx.is_some() && !Rc::ptr_eq(&new_ctx, ctx) {
                 if let Some(parent) = ctx.get_parent_ctx() {
                     parent.remove_last_child();
@@ -594,7 +601,9 @@ where
             self.ctx = Some(new_ctx);
         }
 
-        self.trigger_enter_rule_event();
+        if self.enter_event_pending {
+            self.trigger_enter_rule_event();
+        }
     }
 
     pub fn enter_recursion_rule(
@@ -609,6 +618,7 @@ where
         localctx.set_start(self.input.lt(1).cloned());
         //println!("{}",self.input.lt(1).map(Token::to_owned).unwrap());
         self.ctx = Some(localctx);
+        self.enter_event_pending = true;
     }
 
     pub fn push_new_recursion_context(
-- 
2.43.0


From bb755a1ebdc78e0e02f5f28604d2d7912acafdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:43 +0000
Subject: [PATCH 21/26] fix: full-context prediction reused context merges of
 the SLL stage, where the empty context is a wildcard

---
 src/parser_atn_simulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index da01f70..fee4faa 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -301,6 +301,8 @@ impl ParserATNSimulator {
                 );
                 local.dfa = Some(dfa);
 
+                // contexts merge differently from here on: the empty one is no longer a wildcard
+                local.merge_cache.clear();
                 let s0_closure = self.compute_start_state(
                     local.dfa().atn_start_state,
                     PredictionContext::from_rule_context::<T::Node>(
-- 
2.43.0


From 4e6a844ebafb97bfc1c8849f26a9cb7117ad82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 22/26] fix: set_line of the lexer simulator set the column
 instead of the line

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index a856df8..6d9d690 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -116,7 +116,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From 65576872b27e7480115b5fae9af678a79961210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:19 +0000
Subject: [PATCH 23/26] fix: a predicate behind a matched EOF made the lexer
 panic

---
 src/lexer_atn_simulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 6d9d690..53a8074 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -620,7 +620,10 @@ impl LexerATNSimulator {
         let saved_line = self.current_pos.line.get();
         let index = lexer.input().index();
         let marker = lexer.input().mark();
-        self.consume(lexer.input());
+        // behind a matched EOF there is nothing left to consume
+        if lexer.input().la(1) != EOF {
+            self.consume(lexer.input());
+        }
 
         let result = lexer.sempred(None, rule_index, pred_index);
 
-- 
2.43.0


From 4cc4004878599432bb745aedfe3fc052354d73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 24/26] fix: the stop token of a left-recursive context left
 out a matched EOF

---
 src/parser.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93149ae..da2485a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -557,19 +557,16 @@ where
         }
     }
 
+    /// Last token of a rule that ends here; the EOF token is matched without being consumed
+    fn last_matched(&mut self) -> Option<<I::TF as TokenFactory<'input>>::Tok> {
+        let i = if self.matched_eof { 1 } else { -1 };
+        self.input.lt(i).cloned()
+    }
+
     #[inline]
     pub fn exit_rule(&mut self) {
-        if self.matched_eof {
-            self.ctx
-                .as_ref()
-                .unwrap()
-                .set_stop(self.input.lt(1).cloned())
-        } else {
-            self.ctx
-                .as_ref()
-                .unwrap()
-                .set_stop(self.input.lt(-1).cloned())
-        }
+        let stop = self.last_matched();
+        self.ctx.as_ref().unwrap().set_stop(stop);
         if self.enter_event_pending {
             // the rule failed before an alternative was entered
             self.trigger_enter_rule_event();
@@ -630,7 +627,7 @@ where
         let prev = self.ctx.take().unwrap();
         prev.set_parent(&Some(localctx.clone()));
         prev.set_invoking_state(state);
-        prev.set_stop(self.input.lt(-1).cloned());
+        prev.set_stop(self.last_matched());
 
         //        println!("{}",prev.get_start().unwrap());
         localctx.set_start(Some(prev.start_mut().clone()));
@@ -645,7 +642,7 @@ where
     pub fn unroll_recursion_context(&mut self, parent_ctx: Option<Rc<Ctx::Type>>) {
         self.precedence_stack.pop();
         let retctx = self.ctx.clone().unwrap();
-        retctx.set_stop(self.input.lt(-1).cloned());
+        retctx.set_stop(self.last_matched());
         if !self.parse_listeners.is_empty() {
             while self.ctx.as_ref().map(|x| Rc::as_ptr(x))
                 != parent_ctx.as_ref().map(|x| Rc::as_ptr(x))
-- 
2.43.0


From 37a09245cc5b49442992e88203223c7a750e0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 25/26] fix: parse listeners were identified by their address,
 so removing one by id could take off (and cast) another

Addresses are reused after remove_parse_listeners, and listeners without fields all have the same one.
---
 src/parser.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index da2485a..c75dcc8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,6 +4,7 @@ use std::cell::{Cell, RefCell};
 use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crate::atn::ATN;
@@ -144,6 +145,8 @@ pub struct BaseParser<
     precedence_stack: Vec<isize>,
 
     parse_listeners: Vec<Box<T>>,
+    /// ids of `parse_listeners`, in the same order
+    parse_listener_ids: Vec<usize>,
     /// the current rule was entered, but listeners have not been told yet
     enter_event_pending: bool,
     _syntax_errors: Cell<isize>,
@@ -416,6 +419,7 @@ where
             input,
             precedence_stack: vec![0],
             parse_listeners: vec![],
+            parse_listener_ids: vec![],
             enter_event_pending: false,
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
@@ -485,8 +489,9 @@ where
     where
         L: CoerceTo<T>,
     {
-        let id = ListenerId::new(&listener);
+        let id = ListenerId::new();
         self.parse_listeners.push(listener.coerce_box_to());
+        self.parse_listener_ids.push(id.actual_id);
         id
     }
 
@@ -497,16 +502,18 @@ where
         L: CoerceTo<T>,
     {
         let index = self
-            .parse_listeners
+            .parse_listener_ids
             .iter()
-            .position(|it| ListenerId::new(it).actual_id == listener_id.actual_id)
+            .position(|&it| it == listener_id.actual_id)
             .expect("listener not found");
+        self.parse_listener_ids.remove(index);
         unsafe { listener_id.into_listener(self.parse_listeners.remove(index)) }
     }
 
     /// Removes all added parse listeners without returning them
     pub fn remove_parse_listeners(&mut self) {
-        self.parse_listeners.clear()
+        self.parse_listeners.clear();
+        self.parse_listener_ids.clear()
     }
 
     pub fn trigger_enter_rule_event(&mut self) {
@@ -718,9 +725,12 @@ pub struct ListenerId<T: ?Sized> {
 }
 
 impl<T: ?Sized> ListenerId<T> {
-    fn new(listener: &Box<T>) -> ListenerId<T> {
+    /// an id no other listener has, not even a dropped one: addresses are reused and
+    /// listeners without fields all have the same one
+    fn new() -> ListenerId<T> {
+        static NEXT: AtomicUsize = AtomicUsize::new(0);
         ListenerId {
-            actual_id: listener.as_ref() as *const T as *const () as usize,
+            actual_id: NEXT.fetch_add(1, Ordering::Relaxed),
             phantom: Default::default(),
         }
     }
-- 
2.43.0


From bdb0ff425eadd92860aa0ff628aa6c9d0a840ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:58 +0000
Subject: [PATCH 26/26] fix: dump_dfa showed precedences as edges of a state
 that is not part of the automaton and panicked for states with predicates

---
 src/dfa_serializer.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dfa_serializer.rs b/src/dfa_serializer.rs
index dea3a62..d466af8 100644
--- a/src/dfa_serializer.rs
+++ b/src/dfa_serializer.rs
@@ -12,7 +12,7 @@ pub struct DFASerializer<'a, 'b> {
 impl Display for DFASerializer<'_, '_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         let dfa = &self.dfa.states;
-        for source in dfa.iter() {
+        for source in dfa.iter().skip(self.service_states()) {
             for (i, edge) in source.edges.iter().copied().enumerate() {
                 if edge != 0 && edge != ERROR_DFA_STATE_REF {
                     let target = &dfa[edge];
@@ -40,17 +40,23 @@ impl DFASerializer<'_, '_> {
         }
     }
 
+    /// number of states in front of the real ones: "no state" and, for precedence DFAs,
+    /// the holder of the start state of each precedence
+    fn service_states(&self) -> usize {
+        1 + self.dfa.is_precedence_dfa() as usize
+    }
+
     fn get_state_string(&self, state: &DFAState) -> String {
         let mut base_str = format!(
             "{}s{}{}",
             if state.is_accept_state { ":" } else { "" },
-            state.state_number - 1,
+            state.state_number - self.service_states(),
             if state.requires_full_context { "^" } else { "" },
         );
         if state.is_accept_state {
             base_str = if !state.predicates.is_empty() {
-                unimplemented!()
-            //                format!("{}=>{:?}", base_str, state.predicates)
+                let predicates: Vec<_> = state.predicates.iter().map(|p| p.to_string()).collect();
+                format!("{}=>[{}]", base_str, predicates.join(", "))
             } else {
                 format!("{}=>{}", base_str, state.prediction)
             };
-- 
2.43.0

