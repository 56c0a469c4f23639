From 440b06422b9115105eef3f55ca2867aad3b12391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 1/6] fix: include the first symbols of a repeated adjacent
 non-terminal in its follow symbols

A production such as S -> A A makes every first symbol of A a follow symbol of A,
but the pair was skipped when both symbols were the same.
---
 src/grammar/first_follow_symbols.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/grammar/first_follow_symbols.rs b/src/grammar/first_follow_symbols.rs
index f744611..a4dff6c 100644
--- a/src/grammar/first_follow_symbols.rs
+++ b/src/grammar/first_follow_symbols.rs
@@ -395,26 +395,24 @@ impl<T: Clone + Eq + Hash> FirstFollowSymbols<T> {
         let next_symbol_index: usize = production_output_index + 1;
         let next_symbol = production.output.get(next_symbol_index).unwrap();
 
-        if current_symbol.ne(next_symbol) {
-            let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
+        let next_symbol_first_symbols = first_symbols_map.get(next_symbol).unwrap();
 
-            if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-                first_indexes.clear();
-            }
+        if !next_symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
+            first_indexes.clear();
+        }
 
-            first_indexes.push(next_symbol_index);
+        first_indexes.push(next_symbol_index);
 
-            let mut current_symbol_follow_symbols =
-                follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
+        let mut current_symbol_follow_symbols =
+            follow_symbols_map.get(current_symbol).unwrap().borrow_mut();
 
-            follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
-                grammar,
-                first_symbols_map,
-                production,
-                first_indexes,
-                &mut current_symbol_follow_symbols,
-            );
-        }
+        follow_symbols_updated |= Self::update_follow_symbols_lambda_chain(
+            grammar,
+            first_symbols_map,
+            production,
+            first_indexes,
+            &mut current_symbol_follow_symbols,
+        );
 
         follow_symbols_updated
     }
-- 
2.43.0


From f35d692b9615f742d414c06ec8cb1213f74132b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 2/6] fix: report an error instead of panicking when the tokens
 end before a non-terminal

---
 src/parser/recursive_descent_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 91c49f5..b25fb9e 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -440,10 +440,10 @@ impl<
         token_position: usize,
         is_single_path: bool,
     ) -> ParseSymbolResult<TLex, TSyntax> {
-        let current_token_symbol = tokens.get(token_position).unwrap();
-
-        let token_productions =
-            self.inner_get_token_productions(production_symbol, &current_token_symbol.t_type);
+        let token_productions = tokens
+            .get(token_position)
+            .map(|token| self.inner_get_token_productions(production_symbol, &token.t_type))
+            .unwrap_or(vec![]);
 
         let token_productions_iter = token_productions.into_iter();
 
-- 
2.43.0


From 8626696f1ef8fda7298749397874b4d8dd14b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 3/6] fix: keep parsed non-terminals in the error report when
 their other productions fail

They were dropped from the parsed symbols, so the pending symbols were misaligned.
---
 src/parser/recursive_descent_parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index b25fb9e..e127930 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -545,9 +545,9 @@ impl<
                 State::Fixed(fixed_state) => {
                     reversed_failed_symbols.push(State::Fixed(fixed_state));
                 }
-                State::Parsing(parsing_state) => {
+                State::Parsing(mut parsing_state) => {
                     if parsing_state.prod_iter_option.is_some() {
-                        let productions_iterator = parsing_state.prod_iter_option.unwrap();
+                        let productions_iterator = parsing_state.prod_iter_option.take().unwrap();
 
                         let state_option = self.inner_parse_from_tokens(
                             &parsing_state.node.token.t_type,
@@ -562,7 +562,9 @@ impl<
                                 states.push(State::Parsing(state));
                                 states_pop_success = true;
                             }
-                            _ => {}
+                            _ => {
+                                reversed_failed_symbols.push(State::Parsing(parsing_state));
+                            }
                         }
                     } else {
                         reversed_failed_symbols.push(State::Parsing(parsing_state));
-- 
2.43.0


From 827e89f0792d794f00bd17e7d46ffb57eeda0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 4/6] fix: do not consult the error solver while retrying an
 already parsed symbol

Its answer was discarded, and it was asked even when no production was left.
---
 src/parser/recursive_descent_parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index e127930..2683af9 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -343,7 +343,7 @@ impl<
                     states.push(State::Parsing(parsing_state));
                 }
                 ParseSymbolResult::Err(failed_symbol) => {
-                    match self.inner_parse_pop_states(&mut states, tokens, is_single_path) {
+                    match self.inner_parse_pop_states(&mut states, tokens) {
                         Some(production_parsing_states) => {
                             return Self::inner_parse_from_tokens_production_build_failed_symbol(
                                 failed_symbol,
@@ -531,7 +531,6 @@ impl<
         &self,
         states: &mut Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>,
         tokens: &Vec<Token<TLex, TSyntax>>,
-        is_single_path: bool,
     ) -> Option<Vec<State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>>> {
         let mut reversed_failed_symbols: Vec<
             State<'a, TLex, TSyntax, std::vec::IntoIter<&'a Vec<TSyntax>>>,
@@ -554,7 +553,7 @@ impl<
                             tokens,
                             parsing_state.initial_token_position,
                             productions_iterator,
-                            is_single_path,
+                            false,
                         );
 
                         match state_option {
-- 
2.43.0


From d17b8399af1ba7a19dd365911bbe606cb74c3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 5/6] fix: consult the error solver only when the tokens can
 not be parsed without it

It was consulted before the other productions of already parsed symbols were tried,
so valid tokens could end up fixed.
---
 src/parser/recursive_descent_parser.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/recursive_descent_parser.rs b/src/parser/recursive_descent_parser.rs
index 2683af9..5b3cb24 100644
--- a/src/parser/recursive_descent_parser.rs
+++ b/src/parser/recursive_descent_parser.rs
@@ -134,16 +134,27 @@ impl<
         let first_token_productions =
             self.inner_get_token_productions(symbol_to_derive, &first_token.t_type);
 
-        let first_token_productions_iter = first_token_productions.into_iter();
-
         let parse_symbol_result = self.inner_parse_from_tokens(
             symbol_to_derive,
             &tokens_vector,
             token_position,
-            first_token_productions_iter,
-            true,
+            first_token_productions.clone().into_iter(),
+            false,
         );
 
+        // A fix attempt is the last resource: it's only worth if the tokens can not be parsed.
+        let parse_symbol_result = match parse_symbol_result {
+            ParseSymbolResult::Err(_) if self.syntax_error_solver.is_some() => self
+                .inner_parse_from_tokens(
+                    symbol_to_derive,
+                    &tokens_vector,
+                    token_position,
+                    first_token_productions.into_iter(),
+                    true,
+                ),
+            parse_symbol_result => parse_symbol_result,
+        };
+
         Self::parse_symbol_result_to_parse_result(parse_symbol_result)
     }
 
-- 
2.43.0


From 2640e537a16bd55f44a69b9aa5d76c4aac642cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 6/6] fix: predict a production only for the terminals its
 whole right-hand side allows

Using the follow symbols of the first symbol predicted productions for terminals that
can not start them, so LL(1) grammars such as S -> B A $, A -> B | a A, B -> epsilon
rejected their own sentences (a a $).
---
 .../recursive_descent_parser_transitions.rs   | 94 ++++---------------
 1 file changed, 19 insertions(+), 75 deletions(-)

diff --git a/src/parser/recursive_descent_parser_transitions.rs b/src/parser/recursive_descent_parser_transitions.rs
index 5da0a98..0b4e4b0 100644
--- a/src/parser/recursive_descent_parser_transitions.rs
+++ b/src/parser/recursive_descent_parser_transitions.rs
@@ -74,93 +74,37 @@ impl<T: Clone + Eq + Hash> RecursiveDescentParserTransitions<T> {
      *
      * -----------------------------------------------------------------------------
      *
-     * Unfortunately we don't compute FIRST(α). Fortunately, $ is handled as an
-     * additional terminal symbol in the grammar. Keeping this in mind, there's a
-     * way to determine all the terminal symbols a in which M[A; a] = A → α
-     *
-     * -----------------------------------------------------------------------------
-     *
-     * Alternative algorithm:
-     *
-     * INPUT: Grammar G.
-     * OUTPUT: Parsing table M.
-     * METHOD: For each production A → Bα of the grammar, do the following:
-     *
-     *     1. For each terminal a in FIRST(B), add A → α to M[A; a].
-     *     2.1. If B is terminal and B is ε, then for each terminal b in FOLLOW(A),
-     *          add A → α to M[A; b]
-     *     2.2. If B is non terminal and ε is in FIRST(B), then for each terminal b
-     *          in FOLLOW(B), add A → α to M[A; b].
+     * FIRST(α) is computed from the FIRST symbols of each symbol of α. $ is handled as
+     * an additional terminal symbol in the grammar.
      */
     fn inner_from_get_production_first_symbols(
         grammar: &ContextFreeGrammar<T>,
         production: &ContextFreeGrammarProduction<T>,
         first_follow_symbols: &FirstFollowSymbols<T>,
     ) -> HashSet<T> {
-        let production_first_symbols: HashSet<T>;
+        let epsilon_symbol = grammar.get_epsilon_symbol();
+        let mut production_first_symbols: HashSet<T> = HashSet::new();
 
-        let symbol = production.output.get(0).unwrap();
-
-        let symbol_first_symbols = first_follow_symbols.get_first_symbols(&symbol).unwrap();
-
-        if symbol_first_symbols.contains(grammar.get_epsilon_symbol()) {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_epsilon_first(
-                    grammar,
-                    production,
-                    first_follow_symbols,
-                    symbol,
-                    symbol_first_symbols,
-                );
-        } else {
-            production_first_symbols =
-                Self::inner_from_get_production_first_symbols_on_non_epsilon_first(
-                    symbol_first_symbols,
-                );
-        }
+        for symbol in &production.output {
+            let symbol_first_symbols = first_follow_symbols.get_first_symbols(symbol).unwrap();
 
-        production_first_symbols
-    }
+            symbol_first_symbols
+                .iter()
+                .filter(|symbol| epsilon_symbol.ne(*symbol))
+                .for_each(|symbol| {
+                    production_first_symbols.insert(symbol.clone());
+                });
 
-    fn inner_from_get_production_first_symbols_on_epsilon_first(
-        grammar: &ContextFreeGrammar<T>,
-        production: &ContextFreeGrammarProduction<T>,
-        first_follow_symbols: &FirstFollowSymbols<T>,
-        symbol: &T,
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
-
-        symbol_first_symbols
-            .iter()
-            .filter(|symbol| grammar.get_epsilon_symbol().ne(*symbol))
-            .for_each(|symbol| {
-                production_first_symbols.insert(symbol.clone());
-            });
-
-        let symbol_follow_symbols: &HashSet<T>;
-
-        if grammar.get_epsilon_symbol().eq(symbol) {
-            symbol_follow_symbols = first_follow_symbols
-                .get_follow_symbols(&production.input)
-                .unwrap();
-        } else {
-            symbol_follow_symbols = first_follow_symbols.get_follow_symbols(&symbol).unwrap();
+            if !symbol_first_symbols.contains(epsilon_symbol) {
+                return production_first_symbols;
+            }
         }
 
-        symbol_follow_symbols.iter().for_each(|symbol| {
-            production_first_symbols.insert(symbol.clone());
-        });
-
-        production_first_symbols
-    }
-
-    fn inner_from_get_production_first_symbols_on_non_epsilon_first(
-        symbol_first_symbols: &HashSet<T>,
-    ) -> HashSet<T> {
-        let mut production_first_symbols = HashSet::new();
+        let input_follow_symbols = first_follow_symbols
+            .get_follow_symbols(&production.input)
+            .unwrap();
 
-        symbol_first_symbols.iter().for_each(|symbol| {
+        input_follow_symbols.iter().for_each(|symbol| {
             production_first_symbols.insert(symbol.clone());
         });
 
-- 
2.43.0

