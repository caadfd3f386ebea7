From f7599c056cf39de2e3cb99cb041e1b769ccd1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 01/27] fix: undo later lookahead places when backtracking,
 honour every negative rule of a symbol

---
 cfg-generate/src/weighted/random.rs | 77 +++++++++++++++++------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..ea6908a 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -145,6 +145,8 @@ pub struct NegativeRule {
 }
 
 struct BacktrackState<'a, R> {
+    /// Increases with every negative symbol we go through.
+    serial: u64,
     forbidden: &'a [char],
     rng: R,
     result_len: usize,
@@ -167,10 +169,14 @@ impl Random for Cfg {
         let mut string = vec![];
         let mut terminal_set = SymbolBitSet::new();
         terminal_set.terminal(self);
-        let negative: BTreeMap<Symbol, Vec<char>> = negative_rules
-            .iter()
-            .map(|neg| (neg.sym, neg.chars.chars().collect()))
-            .collect();
+        let mut negative: BTreeMap<Symbol, Vec<Vec<char>>> = BTreeMap::new();
+        for neg in negative_rules {
+            negative
+                .entry(neg.sym)
+                .or_default()
+                .push(neg.chars.chars().collect());
+        }
+        let mut serial = 0;
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         while let Some(&sym) = work.first() {
@@ -185,35 +191,44 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > 256 * 64 {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let violated = backtracking.get(&string.len()).and_then(|back| {
+                    back.iter()
+                        .find(|state| string.ends_with(state.forbidden))
+                });
+                if let Some(state) = violated {
+                    *rng = state.rng.clone();
+                    string.truncate(string.len() - state.forbidden.len());
+                    result.truncate(state.result_len);
+                    work = state.prev_work.clone();
+                    // The places we have gone through later are undone.
+                    let serial = state.serial;
+                    for back in backtracking.values_mut() {
+                        back.retain(|state| state.serial <= serial);
+                    }
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > 256 * 64 {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-            } else if let Some(forbidden) = negative.get(&sym) {
-                // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
-                backtracking
-                    .entry(string.len() + forbidden.len())
-                    .or_default()
-                    .push(BacktrackState {
-                        forbidden: &forbidden[..],
-                        rng: rng.clone(),
-                        result_len: result.len(),
-                        prev_work: work.clone(),
-                    });
+            } else if let Some(forbidden_list) = negative.get(&sym) {
+                // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden_list, string.len());
+                for forbidden in forbidden_list {
+                    backtracking
+                        .entry(string.len() + forbidden.len())
+                        .or_default()
+                        .push(BacktrackState {
+                            serial,
+                            forbidden: &forbidden[..],
+                            rng: rng.clone(),
+                            result_len: result.len(),
+                            prev_work: work.clone(),
+                        });
+                }
+                serial += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 7a112f5413de5ce989f4c8cba73abfaef2a6eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:00 +0000
Subject: [PATCH 02/27] fix: honour Limits::negative_rule_attempts

---
 cfg-generate/src/weighted/random.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index ea6908a..0768bfc 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -29,7 +29,7 @@ pub enum RandomGenError {
 pub struct Limits {
     /// How many terminals we are allowed to produce.
     pub terminals: u64,
-    ///
+    /// How many times we are allowed to backtrack at one place in the output.
     pub negative_rule_attempts: u64,
 }
 
@@ -144,6 +144,9 @@ pub struct NegativeRule {
     pub chars: &'static str,
 }
 
+/// How many times we backtrack at one place when there are no [`Limits`].
+const DEFAULT_NEGATIVE_RULE_ATTEMPTS: u64 = 256 * 64;
+
 struct BacktrackState<'a, R> {
     /// Increases with every negative symbol we go through.
     serial: u64,
@@ -176,6 +179,9 @@ impl Random for Cfg {
                 .or_default()
                 .push(neg.chars.chars().collect());
         }
+        let max_attempts = limit.map_or(DEFAULT_NEGATIVE_RULE_ATTEMPTS, |our_limits| {
+            our_limits.negative_rule_attempts
+        });
         let mut serial = 0;
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
@@ -210,7 +216,7 @@ impl Random for Cfg {
                         .expect("bt.attempt not found");
                     rng.mutate_start(*attempts);
                     *attempts += 1;
-                    if *attempts > 256 * 64 {
+                    if *attempts > max_attempts {
                         return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-- 
2.43.0


From abf346ae2ec1ba97d0de0d8073c661e6d6bbb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:14 +0000
Subject: [PATCH 03/27] fix: report a tokenization error when loading a basic
 BNF instead of panicking

---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..10bfeb9 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line, col)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line as u32,
+            col: col as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From 8148f3210896af03727625d6bd84068987d28d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:14 +0000
Subject: [PATCH 04/27] fix: load documents that begin with a lexer block or
 have several

---
 cfg-load/src/advanced.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..2c78525 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -179,9 +179,15 @@ impl forest::Eval for Evaluator {
                 Value::Start(rules, lex)
             }
             // start ::= start decl;
-            (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            (2, Value::Start(rules, lex), Value::Lex(more), ..) => {
+                let mut lex = lex.unwrap_or(LexerVal(vec![]));
+                lex.0.extend(more.0);
+                Value::Start(rules, Some(lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From e93bb0187613e47c86aa80c771bc5115f65a558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:37 +0000
Subject: [PATCH 05/27] fix: refuse assertions in regular expressions with an
 error instead of panicking

---
 cfg-regexp-logic/src/ext.rs | 34 +++++++++++++++++++++++++++++++---
 cfg-regexp-logic/src/lib.rs |  4 ++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/cfg-regexp-logic/src/ext.rs b/cfg-regexp-logic/src/ext.rs
index 9301264..abcc764 100644
--- a/cfg-regexp-logic/src/ext.rs
+++ b/cfg-regexp-logic/src/ext.rs
@@ -1,14 +1,42 @@
+use std::fmt;
+
 use cfg_grammar::Cfg;
 use regex_syntax::Parser;
 
 use crate::{LexerMap, Translator};
 
+/// Returned when a regular expression cannot be translated to a grammar.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum RegexpError {
+    /// The regular expression is not well-formed.
+    Syntax(regex_syntax::Error),
+    /// The regular expression has assertions such as `^`, `$` or `\b`.
+    UnsupportedAssertion,
+}
+
+impl fmt::Display for RegexpError {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        match self {
+            RegexpError::Syntax(err) => err.fmt(f),
+            RegexpError::UnsupportedAssertion => {
+                write!(f, "assertions in regular expressions are not supported")
+            }
+        }
+    }
+}
+
+impl std::error::Error for RegexpError {}
+
 pub trait CfgRegexpExt: Sized {
-    fn from_regexp(regexp: &str) -> Result<(Self, LexerMap), regex_syntax::Error>;
+    fn from_regexp(regexp: &str) -> Result<(Self, LexerMap), RegexpError>;
 }
 
 impl CfgRegexpExt for Cfg {
-    fn from_regexp(regexp: &str) -> Result<(Self, LexerMap), regex_syntax::Error> {
-        Parser::new().parse(regexp).map(Translator::cfg_from_hir)
+    fn from_regexp(regexp: &str) -> Result<(Self, LexerMap), RegexpError> {
+        let hir = Parser::new().parse(regexp).map_err(RegexpError::Syntax)?;
+        if !hir.properties().look_set().is_empty() {
+            return Err(RegexpError::UnsupportedAssertion);
+        }
+        Ok(Translator::cfg_from_hir(hir))
     }
 }
diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..28440dc 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -9,7 +9,7 @@ use cfg_grammar::Cfg;
 use cfg_sequence::CfgSequenceExt;
 use cfg_symbol::Symbol;
 
-pub use ext::CfgRegexpExt;
+pub use ext::{CfgRegexpExt, RegexpError};
 
 use regex_syntax::hir::{Class, Hir, HirKind};
 
@@ -250,7 +250,7 @@ impl Translator {
                 alternatives
             }
             HirKind::Look(_look) => {
-                unimplemented!()
+                unreachable!("assertions are refused by `from_regexp`")
             }
             HirKind::Empty => {
                 println!("{indent}Empty");
-- 
2.43.0


From db5677e6be69712ebd25464feb866e577d40c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 06/27] fix: make a character literal match only itself in the
 lexer map

---
 cfg-regexp-logic/src/lib.rs | 48 ++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 28440dc..7ac521e 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -13,30 +13,49 @@ pub use ext::{CfgRegexpExt, RegexpError};
 
 use regex_syntax::hir::{Class, Hir, HirKind};
 
+/// A set of characters as half-open ranges. The range `(char::MAX, char::MAX)`
+/// stands for `char::MAX` itself, which no half-open range can include.
 #[derive(PartialEq, PartialOrd, Eq, Ord, Debug, Clone)]
 pub struct LexerClasses {
     set: BTreeSet<(char, char)>,
 }
 
+/// Returns the character that follows the given one, or `char::MAX` for `char::MAX`.
+fn next_char(ch: char) -> char {
+    (ch..=char::MAX).nth(1).unwrap_or(char::MAX)
+}
+
+impl FromIterator<(char, char)> for LexerClasses {
+    /// Collects inclusive ranges.
+    fn from_iter<I: IntoIterator<Item = (char, char)>>(inclusive: I) -> Self {
+        let mut set = BTreeSet::new();
+        for (start, end) in inclusive {
+            if start < char::MAX {
+                set.insert((start, next_char(end)));
+            }
+            if end == char::MAX {
+                set.insert((char::MAX, char::MAX));
+            }
+        }
+        LexerClasses { set }
+    }
+}
+
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
-        LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
-        }
+        (value as char).into()
     }
 }
 
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
-        LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
-        }
+        iter::once((value, value)).collect()
     }
 }
 
 impl From<Class> for LexerClasses {
     fn from(value: Class) -> Self {
-        let set: BTreeSet<(char, char)> = match value {
+        match value {
             Class::Bytes(bytes) => bytes
                 .ranges()
                 .iter()
@@ -47,8 +66,7 @@ impl From<Class> for LexerClasses {
                 .iter()
                 .map(|range| (range.start(), range.end()))
                 .collect(),
-        };
-        LexerClasses { set }
+        }
     }
 }
 
@@ -84,7 +102,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..(class.1 as u32).min(256) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +113,12 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if class.0 < class.1 {
+                    ranges
+                        .entry(class.1)
+                        .or_insert(vec![])
+                        .push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From f85659bd18c6f9d575c5a0f68c838bbe05a7d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 07/27] fix: Cfg::extend keeps the right-hand side length limit

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..96a6923 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in &other.rules {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 9419426c94fad3683649f01c30580350e3d43e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 08/27] fix: SymbolSource::truncate to a larger length no
 longer adds symbols without names

---
 cfg-symbol/src/source.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cfg-symbol/src/source.rs b/cfg-symbol/src/source.rs
index 5d53d91..7df5d44 100644
--- a/cfg-symbol/src/source.rs
+++ b/cfg-symbol/src/source.rs
@@ -203,6 +203,9 @@ impl<T: SymbolPrimitive> SymbolSource<T> {
             new_len as u64 <= T::MAX as u64,
             "attempt to truncate to a length that exceeds the limit"
         );
+        if new_len >= self.num_syms() {
+            return;
+        }
         self.names.truncate(new_len);
         self.next_symbol = Symbol {
             n: NonZeroU32::new(new_len as u32 + 1)
-- 
2.43.0


From 785adf1fa8593d1d1c65299350338b049b92c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:06 +0000
Subject: [PATCH 09/27] fix: a panic inside the map of Remap::remap_symbols no
 longer loses rules

---
 cfg-symbol-bit-matrix/src/remap_symbols.rs | 37 ++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/cfg-symbol-bit-matrix/src/remap_symbols.rs b/cfg-symbol-bit-matrix/src/remap_symbols.rs
index 3980beb..169bddc 100644
--- a/cfg-symbol-bit-matrix/src/remap_symbols.rs
+++ b/cfg-symbol-bit-matrix/src/remap_symbols.rs
@@ -75,28 +75,25 @@ impl<'a> Remap<'a> {
     where
         F: FnMut(Symbol) -> Symbol,
     {
+        // Translate everything before changing the grammar, so that a panic inside
+        // `map` leaves the grammar intact.
         let mut added_rules = vec![];
-        self.grammar.retain(|rule| {
+        let mut unchanged = vec![];
+        for rule in self.grammar.rules() {
+            let lhs = map(rule.lhs);
+            let rhs: Vec<_> = rule.rhs.iter().cloned().map(&mut map).collect();
             trace!(
                 "REMAP {:?} -> {:?} ::= {:?} -> {:?}",
-                rule.lhs,
-                map(rule.lhs),
-                rule.rhs,
-                rule.rhs.iter().map(|&sym| map(sym)).collect::<Vec<_>>()
+                rule.lhs, lhs, rule.rhs, rhs
             );
-            if map(rule.lhs) == rule.lhs && rule.rhs.iter().all(|&sym| map(sym) == sym) {
-                true
-            } else {
+            unchanged.push(lhs == rule.lhs && rhs[..] == rule.rhs[..]);
+            if !unchanged[unchanged.len() - 1] {
                 added_rules.push(CfgRule {
-                    lhs: map(rule.lhs),
-                    rhs: rule.rhs.iter().cloned().map(&mut map).collect(),
+                    lhs,
+                    rhs: rhs.into(),
                     history: rule.history,
                 });
-                false
             }
-        });
-        for rule in added_rules {
-            self.grammar.add_rule(rule);
         }
 
         // let mut translate = |root: Symbol| {
@@ -113,7 +110,6 @@ impl<'a> Remap<'a> {
         //     }
         // };
         let roots: Vec<_> = self.grammar.roots().iter().copied().map(&mut map).collect();
-        self.grammar.set_roots(&roots[..]);
         let wrapped_roots: Vec<_> = self
             .grammar
             .wrapped_roots()
@@ -136,8 +132,17 @@ impl<'a> Remap<'a> {
                 wrapped_root
             })
             .collect();
+        let mut sym_source = self.grammar.sym_source().clone();
+        sym_source.remap_symbols(map);
+
+        *self.grammar.sym_source_mut() = sym_source;
+        let mut unchanged = unchanged.into_iter();
+        self.grammar.retain(|_| unchanged.next().unwrap());
+        for rule in added_rules {
+            self.grammar.add_rule(rule);
+        }
+        self.grammar.set_roots(&roots[..]);
         self.grammar.set_wrapped_roots(&wrapped_roots[..]);
-        self.grammar.sym_source_mut().remap_symbols(map);
     }
 
     /// Get the mapping.
-- 
2.43.0


From 9a360fba2c04e33b883cb5ca0aaba7b9c6b7d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 10/27] fix: Remap::remove_unused_symbols keeps roots and
 forgets removed symbols in the mapping

---
 cfg-symbol-bit-matrix/src/remap_symbols.rs | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cfg-symbol-bit-matrix/src/remap_symbols.rs b/cfg-symbol-bit-matrix/src/remap_symbols.rs
index 169bddc..da76cf9 100644
--- a/cfg-symbol-bit-matrix/src/remap_symbols.rs
+++ b/cfg-symbol-bit-matrix/src/remap_symbols.rs
@@ -31,14 +31,29 @@ impl<'a> Remap<'a> {
         }
     }
 
-    /// Removes unused symbols.
+    /// Removes unused symbols. Roots are not considered unused.
     pub fn remove_unused_symbols(&mut self) {
-        let unused_symbols = self.grammar.unused_symbols();
+        let mut unused_symbols = self.grammar.unused_symbols();
+        for &root in self.grammar.roots() {
+            unused_symbols.set(root, false);
+        }
+        for wrapped_root in self.grammar.wrapped_roots() {
+            unused_symbols.set(wrapped_root.inner_root, false);
+            unused_symbols.set(wrapped_root.root, false);
+            unused_symbols.set(wrapped_root.start_of_input, false);
+            unused_symbols.set(wrapped_root.end_of_input, false);
+        }
         self.reorder_symbols(|sym0, sym1| unused_symbols[sym0].cmp(&unused_symbols[sym1]));
-        let num_syms = self.grammar.num_syms();
-        self.grammar
-            .sym_source_mut()
-            .truncate(num_syms - unused_symbols.iter().count());
+        let num_used = self.grammar.num_syms() - unused_symbols.iter().count();
+        if num_used == 0 {
+            *self.grammar.sym_source_mut() = SymbolSource::new();
+        } else {
+            self.grammar.sym_source_mut().truncate(num_used);
+        }
+        self.mapping.to_external.truncate(num_used);
+        for internal in &mut self.mapping.to_internal {
+            *internal = internal.filter(|sym| sym.usize() < num_used);
+        }
     }
 
     /// Remaps symbols to satisfy given ordering constraints. The argument
-- 
2.43.0


From 0e07e3be7050d05c4bcba1c562baa0fde4290440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:23 +0000
Subject: [PATCH 11/27] fix: rewrite_cycles keeps the language of roots; Cycles
 answers for the current rules

---
 cfg-classify/src/cyclical.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..cc61148 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -64,6 +64,7 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             self.grammar.borrow_mut().retain(|rule| {
                 !(rule.rhs.len() == 1 && self.unit_derivation[(rule.rhs[0], rule.lhs)])
             });
+            self.refresh();
         }
     }
 
@@ -126,6 +127,22 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // A root keeps its language even if another symbol now stands for its cycle.
+            let mut roots = self.grammar.borrow().roots().to_vec();
+            roots.sort();
+            roots.dedup();
+            for root in roots {
+                if let Some(&Some(new_sym)) = translation.get(&root) {
+                    self.grammar.borrow_mut().rule(root).rhs([new_sym]);
+                }
+            }
+            self.refresh();
         }
     }
+
+    /// Analyzes the grammar again after its rules have changed.
+    fn refresh(&mut self) {
+        self.unit_derivation = self.grammar.borrow().unit_derivation_matrix();
+        self.cycle_free = None;
+    }
 }
-- 
2.43.0


From 6ec6720f67173d5b5d383e8c2da595d84493af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:03 +0000
Subject: [PATCH 12/27] fix: a closure interrupted by a panic leaves no work
 behind for the next one

---
 cfg-grammar/src/cfg.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 96a6923..63ad095 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -562,6 +562,8 @@ impl Cfg {
     /// transitively.
     pub fn rhs_closure(&self, property: &mut SymbolBitSet, property_mode: RhsPropertyMode) {
         let mut tmp_stack = self.tmp_stack.borrow_mut();
+        // A closure that panicked may have left symbols here.
+        tmp_stack.clear();
         tmp_stack.extend(property.iter());
 
         let occurence_map = OccurenceMap::from_rules(self.rules());
@@ -581,8 +583,6 @@ impl Cfg {
                 }
             }
         }
-
-        tmp_stack.clear();
     }
 
     /// Primarily for minimal distance computation.
@@ -591,6 +591,8 @@ impl Cfg {
     /// will be filled with new weights.
     pub fn rhs_closure_with_values(&mut self, value: &mut [Option<u32>]) {
         let mut tmp_stack = self.tmp_stack.borrow_mut();
+        // A closure that panicked may have left symbols here.
+        tmp_stack.clear();
         for (maybe_sym_value, sym) in value.iter().zip(SymbolSource::generate_fresh()) {
             if maybe_sym_value.is_some() {
                 tmp_stack.push(sym);
@@ -621,8 +623,6 @@ impl Cfg {
                 }
             }
         }
-
-        tmp_stack.clear();
     }
 
     /// Modifies this grammar to wrap all roots by adding rules of the form:
-- 
2.43.0


From 4d42adda33e823ec97a49ff31395a9c52c335b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:45 +0000
Subject: [PATCH 13/27] fix: reading a zero as a symbol with nanoserde is an
 error, not a panic

---
 cfg-symbol/src/symbol.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfg-symbol/src/symbol.rs b/cfg-symbol/src/symbol.rs
index 4436b68..2fe6e65 100644
--- a/cfg-symbol/src/symbol.rs
+++ b/cfg-symbol/src/symbol.rs
@@ -132,9 +132,12 @@ mod miniserde_impls {
 #[cfg(feature = "nanoserde")]
 impl nanoserde::DeBin for Symbol<NonZeroU32> {
     fn de_bin(offset: &mut usize, bytes: &[u8]) -> Result<Self, nanoserde::DeBinErr> {
-        Ok(Symbol {
-            n: u32::de_bin(offset, bytes)?.try_into().unwrap(),
-        })
+        let start = *offset;
+        match NonZeroU32::new(u32::de_bin(offset, bytes)?) {
+            Some(n) => Ok(Symbol { n }),
+            // Zero is not a symbol.
+            None => Err(nanoserde::DeBinErr::new(start, 1, 0)),
+        }
     }
 }
 
-- 
2.43.0


From 6c6c0ec32d99196cadb7a17ae859860a9432a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:45 +0000
Subject: [PATCH 14/27] fix: running out of symbol space leaves the symbol
 source unchanged

---
 cfg-symbol/src/source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-symbol/src/source.rs b/cfg-symbol/src/source.rs
index 7df5d44..e82a660 100644
--- a/cfg-symbol/src/source.rs
+++ b/cfg-symbol/src/source.rs
@@ -85,8 +85,8 @@ fn advance<T: SymbolPrimitive>(sym: &mut Symbol<T>) {
         .try_into()
         .ok()
         .expect("unreachable: could not convert +1");
-    *sym = Symbol { n: x };
     debug_assert_ne!(x.into().get(), T::MAX, "ran out of Symbol space?");
+    *sym = Symbol { n: x };
 }
 
 impl<T: SymbolPrimitive> SymbolSource<T> {
-- 
2.43.0


From c14137c9015b764742141b0f30335ae92a2df6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 15/27] fix: the FIRST set of a string includes what follows
 nullable symbols

---
 cfg-predict-sets/src/first.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..ba083db 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,28 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut result = PerSymbolSetVal::new();
         for &sym in string {
             if self.terminal_set[sym] {
-                result.push(sym);
-                break;
+                result.list.push(sym);
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
+                result.list.extend(first_set.list.iter().copied());
+                if first_set.has_none {
+                    continue;
                 }
             }
+            result.list.sort_unstable();
+            result.list.dedup();
+            return result;
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        result.list.sort_unstable();
+        result.list.dedup();
+        result.has_none = true;
+        result
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From 685097368444420411bff8a3db1fd19afccbabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:36 +0000
Subject: [PATCH 16/27] fix: the end of input propagates through FOLLOW sets

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..aa45168 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -57,6 +57,7 @@ impl FollowSets {
                         followed.extend(follow_set.iter().cloned());
                         followed.sort_unstable();
                         followed.dedup();
+                        followed.has_none |= follow_set.has_none;
                         changed |= prev_cardinality != followed.len();
 
                         let first_set = first_sets.get(&sym).unwrap();
-- 
2.43.0


From cf12a397d1ea8dc92de4ff21e7f132caaf005a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:47 +0000
Subject: [PATCH 17/27] fix: backward distances are written at the positions
 they belong to

---
 cfg-predict-distance/src/lib.rs | 42 +++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..b3a295f 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -3,6 +3,8 @@
 #![deny(unsafe_code)]
 #![deny(missing_docs)]
 
+use std::ops::Range;
+
 use cfg_grammar::*;
 use cfg_symbol::Symbol;
 
@@ -162,11 +164,13 @@ impl<'a> MinimalDistance<'a> {
         direction: DistanceDirection,
     ) {
         if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
+            let (min, _) =
+                self.update_rule_distances(0, &rule.rhs[..], 0..dot_pos, rule_idx, false);
             set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
+            let dots = dot_pos..rule.rhs.len();
+            let (min, _) = self.update_rule_distances(0, &rule.rhs[..], dots, rule_idx, true);
             set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
     }
@@ -179,39 +183,51 @@ impl<'a> MinimalDistance<'a> {
             changed = false;
             for (idx, rule) in self.grammar.rules().enumerate() {
                 if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
+                    let (_, changed_now) = self.update_rule_distances(
+                        distance,
+                        &rule.rhs[..],
+                        0..rule.rhs.len(),
+                        idx,
+                        false,
+                    );
                     changed |= changed_now;
                 }
                 if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
+                    let (_, changed_now) = self.update_rule_distances(
+                        distance,
+                        &rule.rhs[..],
+                        0..rule.rhs.len(),
+                        idx,
+                        true,
+                    );
                     changed |= changed_now;
                 }
             }
         }
     }
 
-    // Update distances in a rule.
+    // Updates distances in the given part of a rule. Returns the distance at the far end of
+    // that part, and whether it was lowered.
     fn update_rule_distances(
         &mut self,
         mut cur: u32,
         rhs: &[Symbol],
+        part: Range<usize>,
         idx: usize,
         reverse: bool,
     ) -> (u32, bool) {
         let last = if reverse {
-            for (dot, &sym) in rhs.iter().enumerate() {
+            for dot in part.clone() {
                 set_min(&mut self.distances[idx][dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
+                cur = self.update_sym_distance(cur, rhs[dot], true);
             }
-            rhs.len()
+            part.end
         } else {
-            for (dot, &sym) in rhs.iter().enumerate().rev() {
+            for dot in part.clone().rev() {
                 set_min(&mut self.distances[idx][dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
+                cur = self.update_sym_distance(cur, rhs[dot], false);
             }
-            0
+            part.start
         };
         let changed = set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
-- 
2.43.0


From 6c7c17d6c668573b8a12b4b7bec885b7377e7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 18/27] fix: minimal distances of grammars with symbols that
 derive no sentence

---
 cfg-predict-distance/src/lib.rs | 60 ++++++++++++++-------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index b3a295f..2b026cd 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -165,12 +165,12 @@ impl<'a> MinimalDistance<'a> {
     ) {
         if direction.includes_forward() {
             let (min, _) =
-                self.update_rule_distances(0, &rule.rhs[..], 0..dot_pos, rule_idx, false);
+                self.update_rule_distances(Some(0), &rule.rhs[..], 0..dot_pos, rule_idx, false);
             set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
             let dots = dot_pos..rule.rhs.len();
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..], dots, rule_idx, true);
+            let (min, _) = self.update_rule_distances(Some(0), &rule.rhs[..], dots, rule_idx, true);
             set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
     }
@@ -182,7 +182,8 @@ impl<'a> MinimalDistance<'a> {
             // Keep going for as long as any completion distances were lowered in the last pass.
             changed = false;
             for (idx, rule) in self.grammar.rules().enumerate() {
-                if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
+                let distance = self.forward_distances.after[rule.lhs.usize()];
+                if distance.is_some() {
                     let (_, changed_now) = self.update_rule_distances(
                         distance,
                         &rule.rhs[..],
@@ -192,7 +193,8 @@ impl<'a> MinimalDistance<'a> {
                     );
                     changed |= changed_now;
                 }
-                if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
+                let distance = self.backward_distances.after[rule.lhs.usize()];
+                if distance.is_some() {
                     let (_, changed_now) = self.update_rule_distances(
                         distance,
                         &rule.rhs[..],
@@ -210,12 +212,12 @@ impl<'a> MinimalDistance<'a> {
     // that part, and whether it was lowered.
     fn update_rule_distances(
         &mut self,
-        mut cur: u32,
+        mut cur: Option<u32>,
         rhs: &[Symbol],
         part: Range<usize>,
         idx: usize,
         reverse: bool,
-    ) -> (u32, bool) {
+    ) -> (Option<u32>, bool) {
         let last = if reverse {
             for dot in part.clone() {
                 set_min(&mut self.distances[idx][dot], cur);
@@ -233,42 +235,32 @@ impl<'a> MinimalDistance<'a> {
         (cur, changed)
     }
 
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            cur,
-        );
-        cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
+    fn update_sym_distance(&mut self, cur: Option<u32>, sym: Symbol, reverse: bool) -> Option<u32> {
+        let distances = if reverse {
+            &mut self.backward_distances
         } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            cur.min(sym_predicted)
-        } else {
-            cur
-        }
+            &mut self.forward_distances
+        };
+        set_min(&mut distances.after[sym.usize()], cur);
+        // Nothing goes through a symbol that derives no sentence.
+        let through = match (cur, self.min_length[sym.usize()]) {
+            (Some(cur), Some(length)) => Some(cur + length),
+            _ => None,
+        };
+        let predicted = distances.before[sym.usize()];
+        through.into_iter().chain(predicted).min()
     }
 }
 
 /// Updates a value with a minimum of two values.
-fn set_min(current: &mut Option<u32>, new: u32) -> bool {
-    if let Some(ref mut current) = *current {
-        if *current > new {
+fn set_min(current: &mut Option<u32>, new: Option<u32>) -> bool {
+    match (*current, new) {
+        (_, None) => false,
+        (Some(old), Some(new)) if old <= new => false,
+        _ => {
             *current = new;
             true
-        } else {
-            false
         }
-    } else {
-        *current = Some(new);
-        true
     }
 }
 
-- 
2.43.0


From c144ce6a5019cd02a0a3b48cc65430503b6cf180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 19/27] fix: minimal distances do not depend on the order of
 rules

---
 cfg-predict-distance/src/lib.rs | 97 +++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 28 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 2b026cd..886dcd0 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -147,11 +147,17 @@ impl<'a> MinimalDistance<'a> {
         dots: &[(usize, usize)],
         direction: DistanceDirection,
     ) {
-        // Calculates distances within rules.
-        for (idx, rule) in self.grammar.rules().enumerate() {
-            for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
-                debug_assert_eq!(idx, _rule_idx);
-                self.immediate_process_dot(idx, rule, dot_pos, direction);
+        let mut changed = true;
+        while changed {
+            // Keep going for as long as any prediction distances were lowered in the last pass.
+            changed = false;
+            // Calculates distances within rules and the rules they predict.
+            for (idx, rule) in self.grammar.rules().enumerate() {
+                for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
+                    debug_assert_eq!(idx, _rule_idx);
+                    changed |= self.immediate_process_dot(idx, rule, dot_pos, direction);
+                }
+                changed |= self.process_predictions(idx, rule, direction);
             }
         }
     }
@@ -162,17 +168,46 @@ impl<'a> MinimalDistance<'a> {
         rule: &CfgRule,
         dot_pos: usize,
         direction: DistanceDirection,
-    ) {
+    ) -> bool {
+        let mut changed = false;
         if direction.includes_forward() {
-            let (min, _) =
+            let (min, changed_now) =
                 self.update_rule_distances(Some(0), &rule.rhs[..], 0..dot_pos, rule_idx, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
+            changed |= changed_now;
+            changed |= set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
         }
         if direction.includes_backward() {
             let dots = dot_pos..rule.rhs.len();
-            let (min, _) = self.update_rule_distances(Some(0), &rule.rhs[..], dots, rule_idx, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
+            let (min, changed_now) =
+                self.update_rule_distances(Some(0), &rule.rhs[..], dots, rule_idx, true);
+            changed |= changed_now;
+            changed |= set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
+        }
+        changed
+    }
+
+    /// Calculates distances that cross predictions only.
+    fn process_predictions(
+        &mut self,
+        rule_idx: usize,
+        rule: &CfgRule,
+        direction: DistanceDirection,
+    ) -> bool {
+        let all = 0..rule.rhs.len();
+        let mut changed = false;
+        if direction.includes_forward() {
+            let (min, changed_now) =
+                self.update_rule_distances(None, &rule.rhs[..], all.clone(), rule_idx, false);
+            changed |= changed_now;
+            changed |= set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
+        }
+        if direction.includes_backward() {
+            let (min, changed_now) =
+                self.update_rule_distances(None, &rule.rhs[..], all, rule_idx, true);
+            changed |= changed_now;
+            changed |= set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
         }
+        changed
     }
 
     /// Calculates lengths of shortest paths that cross transitions (predictions and completions).
@@ -182,12 +217,13 @@ impl<'a> MinimalDistance<'a> {
             // Keep going for as long as any completion distances were lowered in the last pass.
             changed = false;
             for (idx, rule) in self.grammar.rules().enumerate() {
+                let all = 0..rule.rhs.len();
                 let distance = self.forward_distances.after[rule.lhs.usize()];
                 if distance.is_some() {
                     let (_, changed_now) = self.update_rule_distances(
                         distance,
                         &rule.rhs[..],
-                        0..rule.rhs.len(),
+                        all.clone(),
                         idx,
                         false,
                     );
@@ -195,21 +231,16 @@ impl<'a> MinimalDistance<'a> {
                 }
                 let distance = self.backward_distances.after[rule.lhs.usize()];
                 if distance.is_some() {
-                    let (_, changed_now) = self.update_rule_distances(
-                        distance,
-                        &rule.rhs[..],
-                        0..rule.rhs.len(),
-                        idx,
-                        true,
-                    );
+                    let (_, changed_now) =
+                        self.update_rule_distances(distance, &rule.rhs[..], all, idx, true);
                     changed |= changed_now;
                 }
             }
         }
     }
 
-    // Updates distances in the given part of a rule. Returns the distance at the far end of
-    // that part, and whether it was lowered.
+    // Update distances in the given part of a rule. Returns the distance at the far end of
+    // that part, and whether any distance was lowered.
     fn update_rule_distances(
         &mut self,
         mut cur: Option<u32>,
@@ -218,37 +249,47 @@ impl<'a> MinimalDistance<'a> {
         idx: usize,
         reverse: bool,
     ) -> (Option<u32>, bool) {
+        let mut changed = false;
         let last = if reverse {
             for dot in part.clone() {
-                set_min(&mut self.distances[idx][dot], cur);
-                cur = self.update_sym_distance(cur, rhs[dot], true);
+                changed |= set_min(&mut self.distances[idx][dot], cur);
+                let (next, changed_now) = self.update_sym_distance(cur, rhs[dot], true);
+                changed |= changed_now;
+                cur = next;
             }
             part.end
         } else {
             for dot in part.clone().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
-                cur = self.update_sym_distance(cur, rhs[dot], false);
+                changed |= set_min(&mut self.distances[idx][dot + 1], cur);
+                let (next, changed_now) = self.update_sym_distance(cur, rhs[dot], false);
+                changed |= changed_now;
+                cur = next;
             }
             part.start
         };
-        let changed = set_min(&mut self.distances[idx][last], cur);
+        changed |= set_min(&mut self.distances[idx][last], cur);
         (cur, changed)
     }
 
-    fn update_sym_distance(&mut self, cur: Option<u32>, sym: Symbol, reverse: bool) -> Option<u32> {
+    fn update_sym_distance(
+        &mut self,
+        cur: Option<u32>,
+        sym: Symbol,
+        reverse: bool,
+    ) -> (Option<u32>, bool) {
         let distances = if reverse {
             &mut self.backward_distances
         } else {
             &mut self.forward_distances
         };
-        set_min(&mut distances.after[sym.usize()], cur);
+        let changed = set_min(&mut distances.after[sym.usize()], cur);
         // Nothing goes through a symbol that derives no sentence.
         let through = match (cur, self.min_length[sym.usize()]) {
             (Some(cur), Some(length)) => Some(cur + length),
             _ => None,
         };
         let predicted = distances.before[sym.usize()];
-        through.into_iter().chain(predicted).min()
+        (through.into_iter().chain(predicted).min(), changed)
     }
 }
 
-- 
2.43.0


From 05d4af35c935152a2d53f67cee7aa483a4309362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 20/27] fix: SymbolBitSet::is_empty is true for the empty set
 only

---
 cfg-grammar/src/symbol_bit_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..067224d 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,9 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        !self.bit_vec.iter().any(|b| b)
     }
 
     /// Reserves space for additional symbols.
-- 
2.43.0


From 929916cb4ebf01e41a9f54456e4be7881f9abb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 21/27] fix: literals in regular expressions are strings of
 characters, not of bytes

---
 cfg-regexp-logic/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 7ac521e..6339dfd 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -188,14 +188,20 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
+                // Literals are valid UTF-8, as the parser refuses to match anything else.
+                for ch in String::from_utf8_lossy(&lit.0).chars() {
                     syms.push(
                         *self
                             .class_map
                             .classes
-                            .entry(byte.into())
+                            .entry(ch.into())
                             .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
+                                let name = if ch.is_ascii() {
+                                    format!("__byte{}", ch as u32)
+                                } else {
+                                    format!("__char{}", ch as u32)
+                                };
+                                self.cfg.next_sym(Some(name.into()))
                             }),
                     );
                 }
-- 
2.43.0


From e2a7a8eb03e0ead632c71c7c6d77456d14a27d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 22/27] fix: Cfg::equivalent ignored rules and symbols past the
 end of the shorter grammar or rule

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From 49198ef2ac14cff4b9b7abbaaa1f620ef1a1ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 23/27] fix: MinimalDistance counted distances to dots given in
 earlier calls

---
 cfg-predict-distance/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 886dcd0..1340c97 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -118,6 +118,8 @@ impl<'a> MinimalDistance<'a> {
     ) -> &[Vec<Option<u32>>] {
         let mut dots = dots.to_vec();
         dots.sort_unstable();
+        // Forget the distances to dots given in earlier calls.
+        *self = Self::new(self.grammar);
         self.minimal_sentence_lengths();
         self.immediate_minimal_distances(&dots[..], direction);
         self.transitive_minimal_distances();
-- 
2.43.0


From c89116a92125447f8f972aa4a7f925941f37d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 24/27] fix: dots of binarized rules traced to wrong positions
 of the original rule

---
 cfg-history/src/earley/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..d1a7172 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -221,19 +221,18 @@ impl History {
             [none; 3]
         } else {
             if is_top {
-                if full_len == 2 {
-                    [self.at_dot(0), none, self.at_dot(1)]
-                } else if full_len >= 3 {
+                if full_len >= 2 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                // The rule at height 0 begins with the first two symbols of the original rule.
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From 980b1601da0b0324730da074254ff0b7b64705ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 25/27] fix: sums of symbol values overflow in
 rhs_closure_with_values

---
 cfg-grammar/src/cfg.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 63ad095..7122a47 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -608,10 +608,9 @@ impl Cfg {
                 .iter()
                 .map(|&rule_id| &self.rules[rule_id]);
             for rule in rules {
-                let maybe_work_value = rule
-                    .rhs
-                    .iter()
-                    .try_fold(0, |acc, elem| value[elem.usize()].map(|val| acc + val));
+                let maybe_work_value = rule.rhs.iter().try_fold(0u32, |acc, elem| {
+                    value[elem.usize()].map(|val| acc.saturating_add(val))
+                });
                 if let Some(work_value) = maybe_work_value {
                     if let Some(current_value) = value[rule.lhs.usize()] {
                         if current_value <= work_value {
-- 
2.43.0


From 91a900a2f85dc525b2c080aeea3b7abb006d84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 26/27] fix: minimal distances overflow

---
 cfg-predict-distance/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 1340c97..49e1140 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -287,7 +287,7 @@ impl<'a> MinimalDistance<'a> {
         let changed = set_min(&mut distances.after[sym.usize()], cur);
         // Nothing goes through a symbol that derives no sentence.
         let through = match (cur, self.min_length[sym.usize()]) {
-            (Some(cur), Some(length)) => Some(cur + length),
+            (Some(cur), Some(length)) => Some(cur.saturating_add(length)),
             _ => None,
         };
         let predicted = distances.before[sym.usize()];
-- 
2.43.0


From cae9b3eb0b46105b8feec2e9764f59c13c68a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 27/27] fix: names made for string literals collide with names
 in the document

---
 cfg-load/src/advanced.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2c78525..ca21901 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -623,6 +623,13 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        let idents: HashSet<String> = tokens
+            .iter()
+            .filter_map(|(token, ..)| match token {
+                Token::Ident(name) => Some(name.clone()),
+                _ => None,
+            })
+            .collect();
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -741,7 +748,11 @@ impl CfgLoadAdvancedExt for Cfg {
                         }
                         Fragment::Lex { string, span: _ } => {
                             let id = lex_string_intern.get_or_intern(&string[..]);
-                            let name = format!("__lex{}", id);
+                            let mut name = format!("__lex{}", id);
+                            // A gensym differs from every name in the document.
+                            while idents.contains(&name) {
+                                name.insert(0, '_');
+                            }
                             let id = intern.get_or_intern(&name[..]);
                             let rhs_sym = *sym_map.entry(id).or_insert_with(|| {
                                 cfg.sym_source_mut().next_sym(Some(name.clone().into()))
-- 
2.43.0

