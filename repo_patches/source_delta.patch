From a75490e654e2c169ec23e3f3ad7050bb6484710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 01/31] fix: sep_by1 forgets that the first element has been
 parsed when resumed

The state recording that the first element had been parsed was never set, so
resuming a suspended sep_by1/sep_by parsed an element where a separator was
expected.
---
 src/parser/repeat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 27543c3..5ec08ae 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -724,6 +724,7 @@ where
                     ctry!(self
                         .parser
                         .parse_mode(mode, input, &mut child_state.B.state));
+                *parsed_one = Some(rest);
                 elements.extend(Some(first));
                 rest
             }
@@ -735,6 +736,10 @@ where
 
             elements.extend(iter.by_ref());
 
+            if iter.committed {
+                *parsed_one = Some(Commit::Commit(()));
+            }
+
             iter.into_result_fast(elements).map(|x| {
                 *parsed_one = None;
                 x
-- 
2.43.0


From 17e3e5a493d9f6f6b16271ddcf98e9d4bb1f0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 02/31] fix: chainr1 silently drops a trailing operator

If the operator had committed input but was not followed by an operand the
input was reset to after the operator and the parse succeeded. Fail instead,
as chainl1 does.
---
 src/parser/repeat.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 5ec08ae..ea70e63 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1089,24 +1089,25 @@ where
         let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
         loop {
             let before = input.checkpoint();
-            let op = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => {
-                    committed = committed.merge(rest);
-                    x
-                }
+            let (op, op_committed) = match self.1.parse_lazy(input).into() {
+                Ok((x, rest)) => (x, rest),
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
                 }
             };
-            let before = input.checkpoint();
-            match self.parse_lazy(input).into() {
+            match self
+                .parse_committed_mode(FirstMode, input, &mut ())
+                .into()
+            {
                 Ok((r, rest)) => {
                     l = op(l, r);
-                    committed = committed.merge(rest);
+                    committed = committed.merge(op_committed).merge(rest);
                 }
                 Err(Commit::Commit(err)) => return CommitErr(err.error),
+                // The operator has already been parsed so it can't be ignored
+                Err(Commit::Peek(err)) if !op_committed.is_peek() => return CommitErr(err.error),
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
                     break;
-- 
2.43.0


From 956e4d4139b40faca0f4f6997013a0bcbeb3c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 03/31] fix: repeat_until resumes end with a state that does
 not match the input

The input is reset to before end when end suspends, so its partial state must
be dropped as well.
---
 src/parser/repeat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index ea70e63..11b3fae 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1320,6 +1320,8 @@ where
                     }
                     Err(Commit::Commit(e)) => {
                         ctry!(input.reset(before).committed());
+                        // The input has been reset so `end` must start over if parsing is resumed
+                        *end_state = Default::default();
                         return CommitErr(e.error);
                     }
                 }
-- 
2.43.0


From 469e874827aa1e33ace5d7d7f0f2e00bd50a0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 04/31] fix: escaped does not reset the input when its parser
 fails without committing

A parser which fails with PeekErr may have advanced the input, the escape
character was then looked for one token too late.
---
 src/parser/repeat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 11b3fae..665341f 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1402,13 +1402,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
         let mut committed = Commit::Peek(());
         loop {
+            let checkpoint = input.checkpoint();
             match self.parser.parse_lazy(input) {
                 PeekOk(_) => {}
                 CommitOk(_) => {
                     committed = Commit::Commit(());
                 }
                 PeekErr(_) => {
-                    let checkpoint = input.checkpoint();
+                    ctry!(input.reset(checkpoint.clone()).committed());
                     match uncons(input) {
                         CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
                             match self.escape_parser.parse_committed_mode(
-- 
2.43.0


From 84200b34029ac932598a8870618930e778411248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 05/31] fix: sequences forget that they have committed input
 when resumed

first_empty_parser restarted at 0 so that a parser failing after the
sequence was resumed turned into a PeekErr, losing the input consumed before
the suspension (many, optional and choice then treat it as not parsed).
---
 src/parser/sequence.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 8e0ecc9..5645b24 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -94,6 +94,9 @@ macro_rules! tuple_parser {
             )*
             #[allow(dead_code)]
             offset: u8,
+            // Index (starting at 1) of the last parser that committed, kept so that a resumed
+            // parse still knows that input has been committed
+            first_empty_parser: usize,
             _marker: PhantomData <( $h, $( $id),* )>,
         }
 
@@ -164,7 +167,10 @@ macro_rules! tuple_parser {
                 MODE: ParseMode,
             {
                 let (ref mut $h, $(ref mut $id),*) = *self;
-                let mut first_empty_parser = 0;
+                if mode.is_first() {
+                    state.first_empty_parser = 0;
+                }
+                let mut first_empty_parser = state.first_empty_parser;
                 #[allow(unused_mut)]
                 let mut current_parser = 0;
 
@@ -181,6 +187,7 @@ macro_rules! tuple_parser {
                     let temp = match $h.parse_mode(mode, input, &mut state.$h.state) {
                         CommitOk(x) => {
                             first_empty_parser = current_parser + 1;
+                            state.first_empty_parser = first_empty_parser;
                             x
                         }
                         PeekErr(err) => return PeekErr(err),
@@ -199,12 +206,13 @@ macro_rules! tuple_parser {
                 }
 
                 $(
+                    current_parser += 1;
                     if mode.is_first() || state.$id.value.is_none() {
-                        current_parser += 1;
                         let before = input.checkpoint();
                         let temp = match $id.parse_mode(mode, input, &mut state.$id.state) {
                             CommitOk(x) => {
                                 first_empty_parser = current_parser + 1;
+                                state.first_empty_parser = first_empty_parser;
                                 x
                             }
                             PeekErr(err) => {
@@ -234,6 +242,7 @@ macro_rules! tuple_parser {
 
                 // SAFETY: requires both $h and $id to be set, see previous SAFETY comments
                 let value = unsafe { (state.$h.unwrap_value(), $(state.$id.unwrap_value()),*) };
+                state.first_empty_parser = 0;
                 if first_empty_parser != 0 {
                     CommitOk(value)
                 } else {
-- 
2.43.0


From c5da51f535deea29c0c88fb098df34f0352f0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 06/31] fix: parser_count of a sequence overflows with more
 than 255 parsers

---
 src/parser/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 5645b24..210fd37 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -253,7 +253,7 @@ macro_rules! tuple_parser {
             #[inline]
             fn parser_count(&self) -> ErrorOffset {
                 let (ref $h, $(ref $id),*) = *self;
-                ErrorOffset($h.parser_count().0 $( + $id.parser_count().0)*)
+                ErrorOffset($h.parser_count().0 $( .saturating_add($id.parser_count().0))*)
             }
 
             #[inline]
-- 
2.43.0


From ac80e79bc4044bb9fcebe36e52f0631d310092bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 07/31] fix: tokens and tokens_cmp lose the tokens matched
 before more input was needed

---
 src/parser/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index fe41421..5b49661 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -239,6 +239,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -266,6 +267,9 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // More input is needed, since there is no state to keep track of the tokens
+                    // that have already matched they must all be parsed again
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
@@ -343,6 +347,7 @@ where
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<T, Input::Error> {
         let start = input.position();
+        let before = input.checkpoint();
         let mut committed = false;
         for c in self.tokens.clone() {
             match crate::stream::uncons(input) {
@@ -369,6 +374,9 @@ where
                     };
                 }
                 CommitErr(mut error) => {
+                    // More input is needed, since there is no state to keep track of the tokens
+                    // that have already matched they must all be parsed again
+                    ctry!(input.reset(before).committed());
                     error.set_position(start);
                     return CommitErr(error);
                 }
-- 
2.43.0


From fd681d43c5775d5ae8263be9e89737cb4793ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 08/31] fix: parsers from parser! without PartialState lose
 input when more is needed

---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04faeda..0f8266c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,10 +402,11 @@ macro_rules! parser {
 #[macro_export]
 macro_rules! combine_parse_partial {
     ((()) $mode:ident $input:ident $state:ident $parser:block) => {{
+        // There is no state to resume so input must be reset if more data is needed, which is what
+        // `parse_lazy` does
+        let _ = $mode;
         let _ = $state;
-        let mut state = Default::default();
-        let state = &mut state;
-        $parser.parse_mode($mode, $input, state)
+        $parser.parse_lazy($input)
     }};
     (($ignored:ty) $mode:ident $input:ident $state:ident $parser:block) => {
         $parser.parse_mode($mode, $input, $state)
-- 
2.43.0


From aab366c62db0c441cb596c01b2819e27cae544e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 09/31] fix: not_followed_by leaves the state of a failed
 parser behind

The input is reset so the state must be as well, and a parser which only
failed because more input is needed has not yet failed.
---
 src/parser/combinator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97bae9a..a64c73b 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -44,7 +44,16 @@ where
         ctry!(input.reset(checkpoint).committed());
         match result {
             CommitOk(_) | PeekOk(_) => PeekErr(Input::Error::empty(input.position()).into()),
-            CommitErr(_) | PeekErr(_) => PeekOk(()),
+            CommitErr(err) => {
+                // The input has been reset so the parser must start over if it is run again
+                *state = Default::default();
+                if input.is_partial() && err.is_unexpected_end_of_input() {
+                    CommitErr(err)
+                } else {
+                    PeekOk(())
+                }
+            }
+            PeekErr(_) => PeekOk(()),
         }
     }
 
-- 
2.43.0


From ec49cde205911f3d28364fe52376af1b0b0b8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 10/31] fix: attempt leaves the state of a failed parser behind

Trying the parser again with that state returned elements from the failed
try (many, sep_end_by) or hit a debug assertion (many1, then).
---
 src/parser/combinator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index a64c73b..33ebb6d 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -140,6 +140,8 @@ where
                 if input.is_partial() && err.is_unexpected_end_of_input() {
                     CommitErr(err)
                 } else {
+                    // The parser may be tried again so it must not see any leftover state
+                    *state = Default::default();
                     PeekErr(err.into())
                 }
             }
-- 
2.43.0


From d070be229b486c0afd6222e2da1c3568ceee575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 11/31] fix: lazy loses the errors of its parser in committed
 positions

---
 src/parser/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 33ebb6d..97720b4 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -1088,7 +1088,7 @@ where
     where
         M: ParseMode,
     {
-        (self.0)().parse_mode(mode, input, state)
+        (self.0)().parse_committed_mode(mode, input, state)
     }
 
     fn parse_mode_impl<M>(
-- 
2.43.0


From af8a71043ab4a0f0b4cfef4a0748e898d0f9dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/31] fix: choice over a slice or array skips alternatives
 when resumed without progress

---
 src/parser/choice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index ad976a7..f0b186a 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -395,6 +395,7 @@ where
 {
     let mut prev_err = None;
     let mut last_parser_having_non_1_offset = 0;
+    let before_position = input.position();
     let before = input.checkpoint();
 
     let (ref mut index_state, ref mut child_state) = *state;
@@ -410,9 +411,16 @@ where
     for i in 0..self_.len() {
         ctry!(input.reset(before.clone()).committed());
 
-        match self_[i].parse_mode(mode, input, child_state) {
+        match self_[i].parse_mode(crate::parser::FirstMode, input, child_state) {
             committed_err @ CommitErr(_) => {
-                *index_state = i + 1;
+                // If the input is the same this is a partial parse we cannot commit to so all the
+                // parsers must be tried again on the next call to `parse_partial`
+                *index_state = if input.position() != before_position {
+                    i + 1
+                } else {
+                    *child_state = Default::default();
+                    0
+                };
                 return committed_err;
             }
             PeekErr(err) => {
-- 
2.43.0


From 55aa022847f1c61a22950f35795f6958a8f50c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 13/31] fix: take_until and repeat_until fail as uncommitted
 after consuming and leave output behind

---
 src/parser/repeat.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 665341f..6fe1392 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1185,8 +1185,22 @@ where
                 }
                 Err(Commit::Peek(_)) => {
                     ctry!(input.reset(before).committed());
-                    output.extend(Some(ctry!(uncons(input)).0));
-                    committed = Commit::Commit(());
+                    match uncons(input) {
+                        CommitOk(token) | PeekOk(token) => {
+                            output.extend(Some(token));
+                            committed = Commit::Commit(());
+                        }
+                        CommitErr(err) => return CommitErr(err),
+                        PeekErr(err) => {
+                            // The parser may be tried again so no tokens can be left behind
+                            mem::take(output);
+                            return if committed.is_peek() {
+                                PeekErr(err)
+                            } else {
+                                CommitErr(err.error)
+                            };
+                        }
+                    }
                 }
                 Err(Commit::Commit(e)) => {
                     ctry!(input.reset(before).committed());
@@ -1299,7 +1313,21 @@ where
         let mut committed = Commit::Peek(());
         loop {
             if *is_parse {
-                let (token, c) = ctry!(self.parser.parse_mode(mode, input, parse_state));
+                let (token, c) = match self.parser.parse_mode(mode, input, parse_state) {
+                    CommitOk(token) => (token, Commit::Commit(())),
+                    PeekOk(token) => (token, Commit::Peek(())),
+                    CommitErr(err) => return CommitErr(err),
+                    PeekErr(err) => {
+                        // The parser may be tried again so nothing can be left behind
+                        mem::take(output);
+                        *is_parse = false;
+                        return if committed.is_peek() {
+                            PeekErr(err)
+                        } else {
+                            CommitErr(err.error)
+                        };
+                    }
+                };
                 output.extend(Some(token));
                 committed = committed.merge(c);
                 *is_parse = false;
-- 
2.43.0


From d64f75f63d525fc9a3b63ba867b01c21076bcf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 14/31] fix: iterate leaves output of a failed run behind

---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 6fe1392..08733d9 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1615,7 +1615,13 @@ where
         })();
 
         if let Err((item, err)) = result {
-            *next_item = Some(item);
+            if let PeekErr(_) = err {
+                // The parser may be tried again so nothing can be left behind
+                mem::take(buf);
+                opt_iter.take();
+            } else {
+                *next_item = Some(item);
+            }
             return err;
         }
 
-- 
2.43.0


From b317fea41f8f252dbc768fbc8506140237bfebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 15/31] fix: many, count_min_max, take_until and repeat_until
 forget that they have committed input when resumed

---
 src/parser/repeat.rs | 74 +++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 08733d9..10d37cf 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -123,7 +123,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (usize, F, P::PartialState);
+    type PartialState = (usize, bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -136,15 +136,18 @@ where
     where
         M: ParseMode,
     {
-        let (count, elements, child_state) = state;
+        let (count, committed, elements, child_state) = state;
 
         let mut iter = self.parser.by_ref().partial_iter(mode, input, child_state);
+        // A resumed parse may already have committed
+        iter.committed = !mode.is_first() && *committed;
         let remaining_min = self.min.saturating_sub(*count);
         let remaining_max = self.max - *count;
         elements.extend(suggest_size_hint(
             iter.by_ref().take(remaining_max).inspect(|_| *count += 1),
             (remaining_min, Some(remaining_max)),
         ));
+        *committed = iter.committed;
         if *count < self.min {
             let err = StreamError::message_format(format_args!(
                 "expected {} more elements",
@@ -154,6 +157,7 @@ where
         } else {
             iter.into_result_fast(elements).map(|x| {
                 *count = 0;
+                *committed = false;
                 x
             })
         }
@@ -384,7 +388,7 @@ where
     F: Extend<P::Output> + Default,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (bool, F, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -398,11 +402,17 @@ where
         M: ParseMode,
     {
         // TODO
-        let (ref mut elements, ref mut child_state) = *state;
+        let (ref mut committed, ref mut elements, ref mut child_state) = *state;
 
         let mut iter = (&mut self.0).partial_iter(mode, input, child_state);
+        // A resumed parse may already have committed
+        iter.committed = !mode.is_first() && *committed;
         elements.extend(iter.by_ref());
-        iter.into_result_fast(elements)
+        *committed = iter.committed;
+        iter.into_result_fast(elements).map(|x| {
+            *committed = false;
+            x
+        })
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
@@ -1157,7 +1167,7 @@ where
     P: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, P::PartialState);
+    type PartialState = (F, bool, P::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1170,17 +1180,20 @@ where
     where
         M: ParseMode,
     {
-        let (ref mut output, ref mut end_state) = *state;
+        let (ref mut output, ref mut committed, ref mut end_state) = *state;
 
-        let mut committed = Commit::Peek(());
+        if mode.is_first() {
+            *committed = false;
+        }
         loop {
             let before = input.checkpoint();
             match self.end.parse_mode(mode, input, end_state).into() {
                 Ok((_, rest)) => {
                     ctry!(input.reset(before).committed());
-                    return match committed.merge(rest) {
-                        Commit::Commit(()) => CommitOk(mem::take(output)),
-                        Commit::Peek(()) => PeekOk(mem::take(output)),
+                    return if mem::take(committed) || !rest.is_peek() {
+                        CommitOk(mem::take(output))
+                    } else {
+                        PeekOk(mem::take(output))
                     };
                 }
                 Err(Commit::Peek(_)) => {
@@ -1188,16 +1201,16 @@ where
                     match uncons(input) {
                         CommitOk(token) | PeekOk(token) => {
                             output.extend(Some(token));
-                            committed = Commit::Commit(());
+                            *committed = true;
                         }
                         CommitErr(err) => return CommitErr(err),
                         PeekErr(err) => {
                             // The parser may be tried again so no tokens can be left behind
                             mem::take(output);
-                            return if committed.is_peek() {
-                                PeekErr(err)
-                            } else {
+                            return if mem::take(committed) {
                                 CommitErr(err.error)
+                            } else {
+                                PeekErr(err)
                             };
                         }
                     }
@@ -1295,7 +1308,7 @@ where
     E: Parser<Input>,
 {
     type Output = F;
-    type PartialState = (F, bool, P::PartialState, E::PartialState);
+    type PartialState = (F, bool, bool, P::PartialState, E::PartialState);
 
     parse_mode!(Input);
     #[inline]
@@ -1308,37 +1321,42 @@ where
     where
         M: ParseMode,
     {
-        let (output, is_parse, parse_state, end_state) = state;
+        let (output, is_parse, committed, parse_state, end_state) = state;
 
-        let mut committed = Commit::Peek(());
+        if mode.is_first() {
+            *committed = false;
+        }
         loop {
             if *is_parse {
-                let (token, c) = match self.parser.parse_mode(mode, input, parse_state) {
-                    CommitOk(token) => (token, Commit::Commit(())),
-                    PeekOk(token) => (token, Commit::Peek(())),
+                let token = match self.parser.parse_mode(mode, input, parse_state) {
+                    CommitOk(token) => {
+                        *committed = true;
+                        token
+                    }
+                    PeekOk(token) => token,
                     CommitErr(err) => return CommitErr(err),
                     PeekErr(err) => {
                         // The parser may be tried again so nothing can be left behind
                         mem::take(output);
                         *is_parse = false;
-                        return if committed.is_peek() {
-                            PeekErr(err)
-                        } else {
+                        return if mem::take(committed) {
                             CommitErr(err.error)
+                        } else {
+                            PeekErr(err)
                         };
                     }
                 };
                 output.extend(Some(token));
-                committed = committed.merge(c);
                 *is_parse = false;
             } else {
                 let before = input.checkpoint();
                 match self.end.parse_mode(mode, input, end_state).into() {
                     Ok((_, rest)) => {
                         ctry!(input.reset(before).committed());
-                        return match committed.merge(rest) {
-                            Commit::Commit(()) => CommitOk(mem::take(output)),
-                            Commit::Peek(()) => PeekOk(mem::take(output)),
+                        return if mem::take(committed) || !rest.is_peek() {
+                            CommitOk(mem::take(output))
+                        } else {
+                            PeekOk(mem::take(output))
                         };
                     }
                     Err(Commit::Peek(_)) => {
-- 
2.43.0


From cf3e9b0d6568b18e3f9bbf0d050014249fff014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 16/31] fix: count_min_max leaves the elements of a failed run
 behind

---
 src/parser/repeat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 10d37cf..708e92b 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -153,7 +153,13 @@ where
                 "expected {} more elements",
                 self.min - *count
             ));
-            iter.fail(err)
+            let result = iter.fail(err);
+            if let PeekErr(_) = result {
+                // The parser may be tried again so nothing can be left behind
+                mem::take(elements);
+                *count = 0;
+            }
+            result
         } else {
             iter.into_result_fast(elements).map(|x| {
                 *count = 0;
-- 
2.43.0


From 476cb607cad769d6f54a035f41eaff4f5ceedf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 17/31] fix: then treats a final failure at the end of a
 partial input as missing input

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24e880b..f6d8218 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -1138,7 +1138,8 @@ pub trait ParseMode: Copy {
             if let Ok(t) = input.uncons() {
                 ctry!(input.reset(before).committed());
                 error.error.add_unexpected(Token(t));
-            } else {
+            } else if !input.is_partial() {
+                // At the end of a partial input the parser has failed on what came before
                 error.error.add(StreamErrorFor::<Input>::end_of_input());
             }
             parser.add_error(error);
-- 
2.43.0


From 26d31176941904d257ee7cd58e8e82bb2e0dbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 18/31] fix: eof succeeds at the end of a partial input

---
 src/parser/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/token.rs b/src/parser/token.rs
index 5b49661..1e21a4c 100644
--- a/src/parser/token.rs
+++ b/src/parser/token.rs
@@ -668,6 +668,14 @@ where
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<(), Input::Error> {
         let before = input.checkpoint();
         match input.uncons() {
+            // More input may follow the end of a partial input
+            Err(err) if err.is_unexpected_end_of_input() && input.is_partial() => {
+                ctry!(input.reset(before).committed());
+                CommitErr(<Input as StreamOnce>::Error::from_error(
+                    input.position(),
+                    err,
+                ))
+            }
             Err(ref err) if err.is_unexpected_end_of_input() => PeekOk(()),
             _ => {
                 ctry!(input.reset(before).committed());
-- 
2.43.0


From c35f1c35a98882bf44a9aa6b3bc2cb82d6ac68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 19/31] fix: take_fn fails as uncommitted when resumed with
 data it has already searched

---
 src/parser/range.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index 46353eb..f588629 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -600,7 +600,8 @@ where
                 ctry!(input.reset(checkpoint).committed());
 
                 let err = Input::Error::from_error(position, StreamError::end_of_input());
-                if !input.is_partial() && range.is_empty() {
+                // Input that was skipped because it had already been searched counts as well
+                if !input.is_partial() && input.range().is_empty() {
                     PeekErr(err.into())
                 } else {
                     CommitErr(err)
-- 
2.43.0


From cb7d8ad44b2889e142a529e907159fd684e5933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 20/31] fix: chainr1 and escaped lose what they have parsed
 when more input is needed

---
 src/parser/repeat.rs | 144 ++++++++++++++++++++++++-------------------
 1 file changed, 81 insertions(+), 63 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 708e92b..1dec41c 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1101,36 +1101,45 @@ where
     type PartialState = ();
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<P::Output, Input::Error> {
-        // FIXME FastResult
-        let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
-        loop {
-            let before = input.checkpoint();
-            let (op, op_committed) = match self.1.parse_lazy(input).into() {
-                Ok((x, rest)) => (x, rest),
-                Err(Commit::Commit(err)) => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
-                    ctry!(input.reset(before).committed());
-                    break;
-                }
-            };
-            match self
-                .parse_committed_mode(FirstMode, input, &mut ())
-                .into()
-            {
-                Ok((r, rest)) => {
-                    l = op(l, r);
-                    committed = committed.merge(op_committed).merge(rest);
-                }
-                Err(Commit::Commit(err)) => return CommitErr(err.error),
-                // The operator has already been parsed so it can't be ignored
-                Err(Commit::Peek(err)) if !op_committed.is_peek() => return CommitErr(err.error),
-                Err(Commit::Peek(_)) => {
-                    ctry!(input.reset(before).committed());
-                    break;
+        let start = input.checkpoint();
+        let result = (|| {
+            // FIXME FastResult
+            let (mut l, mut committed) = ctry!(self.0.parse_lazy(input));
+            loop {
+                let before = input.checkpoint();
+                let (op, op_committed) = match self.1.parse_lazy(input).into() {
+                    Ok((x, rest)) => (x, rest),
+                    Err(Commit::Commit(err)) => return CommitErr(err.error),
+                    Err(Commit::Peek(_)) => {
+                        ctry!(input.reset(before).committed());
+                        break;
+                    }
+                };
+                match self
+                    .parse_committed_mode(FirstMode, input, &mut ())
+                    .into()
+                {
+                    Ok((r, rest)) => {
+                        l = op(l, r);
+                        committed = committed.merge(op_committed).merge(rest);
+                    }
+                    Err(Commit::Commit(err)) => return CommitErr(err.error),
+                    // The operator has already been parsed so it can't be ignored
+                    Err(Commit::Peek(err)) if !op_committed.is_peek() => return CommitErr(err.error),
+                    Err(Commit::Peek(_)) => {
+                        ctry!(input.reset(before).committed());
+                        break;
+                    }
                 }
             }
+            Ok((l, committed)).into()
+        })();
+        if let (CommitErr(_), true) = (&result, input.is_partial()) {
+            // There is no state to resume from so everything must be parsed again if this was due
+            // to a lack of input
+            ctry!(input.reset(start).committed());
         }
-        Ok((l, committed)).into()
+        result
     }
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
         self.0.add_error(errors)
@@ -1452,49 +1461,58 @@ where
     type PartialState = EscapedState<P::PartialState, Q::PartialState>;
 
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<Self::Output, Input::Error> {
-        let mut committed = Commit::Peek(());
-        loop {
-            let checkpoint = input.checkpoint();
-            match self.parser.parse_lazy(input) {
-                PeekOk(_) => {}
-                CommitOk(_) => {
-                    committed = Commit::Commit(());
-                }
-                PeekErr(_) => {
-                    ctry!(input.reset(checkpoint.clone()).committed());
-                    match uncons(input) {
-                        CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
-                            match self.escape_parser.parse_committed_mode(
-                                FirstMode,
-                                input,
-                                &mut Default::default(),
-                            ) {
-                                PeekOk(_) => {}
-                                CommitOk(_) => {
-                                    committed = Commit::Commit(());
-                                }
-                                CommitErr(err) => return CommitErr(err),
-                                PeekErr(err) => {
-                                    return CommitErr(err.error);
+        let start = input.checkpoint();
+        let result = (|| {
+            let mut committed = Commit::Peek(());
+            loop {
+                let checkpoint = input.checkpoint();
+                match self.parser.parse_lazy(input) {
+                    PeekOk(_) => {}
+                    CommitOk(_) => {
+                        committed = Commit::Commit(());
+                    }
+                    PeekErr(_) => {
+                        ctry!(input.reset(checkpoint.clone()).committed());
+                        match uncons(input) {
+                            CommitOk(ref c) | PeekOk(ref c) if *c == self.escape => {
+                                match self.escape_parser.parse_committed_mode(
+                                    FirstMode,
+                                    input,
+                                    &mut Default::default(),
+                                ) {
+                                    PeekOk(_) => {}
+                                    CommitOk(_) => {
+                                        committed = Commit::Commit(());
+                                    }
+                                    CommitErr(err) => return CommitErr(err),
+                                    PeekErr(err) => {
+                                        return CommitErr(err.error);
+                                    }
                                 }
                             }
-                        }
-                        CommitErr(err) => {
-                            return CommitErr(err);
-                        }
-                        _ => {
-                            ctry!(input.reset(checkpoint).committed());
-                            return if committed.is_peek() {
-                                PeekOk(())
-                            } else {
-                                CommitOk(())
-                            };
+                            CommitErr(err) => {
+                                return CommitErr(err);
+                            }
+                            _ => {
+                                ctry!(input.reset(checkpoint).committed());
+                                return if committed.is_peek() {
+                                    PeekOk(())
+                                } else {
+                                    CommitOk(())
+                                };
+                            }
                         }
                     }
+                    CommitErr(err) => return CommitErr(err),
                 }
-                CommitErr(err) => return CommitErr(err),
             }
+        })();
+        if let (CommitErr(_), true) = (&result, input.is_partial()) {
+            // There is no state to resume from so everything must be parsed again if this was due
+            // to a lack of input
+            ctry!(input.reset(start).committed());
         }
+        result
     }
 
     fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-- 
2.43.0


From 3e19dfb9e709fc30d7021d9a16b05bb74d4bdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 21/31] fix: take_fn miscounts when its offset falls inside a
 character

---
 src/parser/range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index f588629..a9e5f8d 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -578,8 +578,9 @@ where
 
         if mode.is_first() {
             *offset = 0;
-        } else {
-            let _ = input.uncons_range(*offset);
+        } else if input.uncons_range(*offset).is_err() {
+            // The offset is not a place the input can be split at, search it from the start
+            *offset = 0;
         }
 
         match (self.searcher)(input.range()).into() {
-- 
2.43.0


From 12c691522a5c516cadd4647856c98db31b41a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 22/31] fix: range commits although it consumed nothing

---
 src/parser/range.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/range.rs b/src/parser/range.rs
index a9e5f8d..d524599 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -51,7 +51,12 @@ where
         match input.uncons_range(self.0.len()) {
             Ok(other) => {
                 if other == self.0 {
-                    CommitOk(other)
+                    // Like `tokens`, an empty range consumes nothing
+                    if self.0.len() == 0 {
+                        PeekOk(other)
+                    } else {
+                        CommitOk(other)
+                    }
                 } else {
                     PeekErr(Input::Error::empty(position).into())
                 }
-- 
2.43.0


From 2a2036b6b3c4fd4b944a8a3fe4327c97754f6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 23/31] fix: converting an easy::Error turns messages into
 expectations

---
 src/stream/easy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/stream/easy.rs b/src/stream/easy.rs
index 0a54182..596f461 100644
--- a/src/stream/easy.rs
+++ b/src/stream/easy.rs
@@ -302,10 +302,10 @@ where
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x),
-                Info::Range(x) => T::expected_range(x),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x),
+                Info::Range(x) => T::message_range(x),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
@@ -402,10 +402,10 @@ impl<Item, Range> crate::error::StreamErrorInto<Item, Range> for Error<Item, Ran
                 Info::Owned(x) => T::expected_format(x),
             },
             Error::Message(info) => match info {
-                Info::Token(x) => T::expected_token(x.into()),
-                Info::Range(x) => T::expected_range(x.into()),
-                Info::Static(x) => T::expected_static_message(x),
-                Info::Owned(x) => T::expected_format(x),
+                Info::Token(x) => T::message_token(x.into()),
+                Info::Range(x) => T::message_range(x.into()),
+                Info::Static(x) => T::message_static_message(x),
+                Info::Owned(x) => T::message_format(x),
             },
             Error::Other(err) => T::message_format(err),
         }
-- 
2.43.0


From f7b0e63112e696c8f6d4846a4f5dba094b0d3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 24/31] fix: the expected parts of a nested sequence are lost

A sequence that fails inside a nested sequence did not ask all the parts that
were tried there what they expected.
---
 src/parser/sequence.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 210fd37..997e790 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -137,6 +137,9 @@ macro_rules! tuple_parser {
                     }
                     CommitErr(err.error)
                 } else {
+                    // The parser which failed may itself have gone through several parsers
+                    err.offset =
+                        ErrorOffset(offset.saturating_add(inner_offset.0.saturating_sub(1)));
                     PeekErr(err)
                 }
             }
-- 
2.43.0


From da386d6d814fe1a912af4ef236a13aaf863c296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 25/31] fix: a nested sequence is counted twice when errors are
 added

`add_error` of a nested sequence already counts down the offset, after which the
parts behind it were skipped.
---
 src/parser/sequence.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/sequence.rs b/src/parser/sequence.rs
index 997e790..305826c 100644
--- a/src/parser/sequence.rs
+++ b/src/parser/sequence.rs
@@ -65,19 +65,22 @@ where
     if *i + 1 == first_empty_parser {
         Parser::add_committed_expected_error(parser, err);
     }
+    let before = err.offset;
     if *i >= first_empty_parser {
-        if err.offset <= ErrorOffset(1) {
+        let failed = before <= ErrorOffset(1);
+        if failed {
             // We reached the last parser we need to add errors to (and the
             // parser that actually returned the error), use the returned
             // offset for that parser.
             err.offset = inner_offset;
         }
         Parser::add_error(parser, err);
-        if err.offset <= ErrorOffset(1) {
+        if failed {
             return false;
         }
     }
-    err.offset = ErrorOffset(err.offset.0.saturating_sub(Parser::parser_count(parser).0));
+    // `add_error` may already have counted down the offset
+    err.offset = ErrorOffset(before.0.saturating_sub(Parser::parser_count(parser).0));
 
     *i += 1;
     true
-- 
2.43.0


From fcd9d54f8c16c844a7cdb752333239a71a1a22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 26/31] fix: a choice forgets what some of its alternatives
 expect

Once the errors of one alternative have been added the offset says that nothing
is left to add, so those of the others have to be added as well.
---
 src/parser/choice.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parser/choice.rs b/src/parser/choice.rs
index f0b186a..3d058e2 100644
--- a/src/parser/choice.rs
+++ b/src/parser/choice.rs
@@ -151,16 +151,18 @@ macro_rules! do_choice {
         // more parsers returned `PeekOk` before the parser finally failed with
         // `PeekErr`. Since we lose the offsets of the nested parsers when we merge
         // the errors we must first extract the errors before we do the merge.
-        // If the offset == 0 on the other hand (which should be the common case) then
+        // Once the errors of one parser have been added those of the others must be as well, since
+        // an offset of 0 tells `add_error` that nothing is left to add.
+        // If every offset == 1 on the other hand (which should be the common case) then
         // we can delay the addition of the error since we know for certain that only
-        // the first parser in the sequence were tried
-        $(
-            if $error.offset != ErrorOffset(1) {
+        // the first parser in each sequence were tried
+        if false $(|| $error.offset != ErrorOffset(1))+ {
+            $(
                 error.offset = $error.offset;
                 $parser.add_error(&mut error);
-                error.offset = ErrorOffset(0);
-            }
-        )+
+            )+
+            error.offset = ErrorOffset(0);
+        }
         PeekErr(error)
     } };
     (
-- 
2.43.0


From bcce25341bdc37972ab7a7e4b3b88c22b66413ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:55 +0000
Subject: [PATCH 27/31] fix: Either forgets what its parser expects after
 committing

Either did not forward add_committed_expected_error and the number of parts.
---
 src/parser/combinator.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 97720b4..0872d2a 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -9,7 +9,7 @@ use crate::{
     lib::{fmt, marker::PhantomData, mem, str},
     parser::ParseMode,
     stream::{input_at_eof, span::Span, ResetStream, Stream, StreamErrorFor, StreamOnce},
-    Parser,
+    ErrorOffset, Parser,
 };
 
 #[cfg(feature = "alloc")]
@@ -638,6 +638,20 @@ where
             Either::Right(ref mut x) => x.add_error(error),
         }
     }
+
+    fn add_committed_expected_error(&mut self, error: &mut Tracked<<Input as StreamOnce>::Error>) {
+        match *self {
+            Either::Left(ref mut x) => x.add_committed_expected_error(error),
+            Either::Right(ref mut x) => x.add_committed_expected_error(error),
+        }
+    }
+
+    fn parser_count(&self) -> ErrorOffset {
+        match *self {
+            Either::Left(ref x) => x.parser_count(),
+            Either::Right(ref x) => x.parser_count(),
+        }
+    }
 }
 
 pub struct NoPartial<P>(P);
-- 
2.43.0


From ad2f4b8498a282e2554fb8be5c42e12e0639bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:29 +0000
Subject: [PATCH 28/31] fix: some wrappers count as a single part of a sequence

The parts behind a factory, spanned or recognized sequence did not report what they expect.
---
 src/parser/combinator.rs | 13 ++++++++-----
 src/parser/range.rs      |  5 ++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/combinator.rs b/src/parser/combinator.rs
index 0872d2a..8d8c011 100644
--- a/src/parser/combinator.rs
+++ b/src/parser/combinator.rs
@@ -533,10 +533,7 @@ where
         Self::recognize_result(elements, before, input, result)
     }
 
-    #[inline]
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Constructs a parser which returns the tokens parsed by `parser` accumulated in
@@ -1198,6 +1195,12 @@ where
             parser.add_committed_expected_error(errors);
         }
     }
+
+    fn parser_count(&self) -> ErrorOffset {
+        self.1
+            .as_ref()
+            .map_or(ErrorOffset(1), |parser| parser.parser_count())
+    }
 }
 
 /// Constructs the parser lazily on each `parse_*` call. This is similar to [`lazy`][] but it
@@ -1592,7 +1595,7 @@ where
         })
     }
 
-    forward_parser!(Input, add_error, add_committed_expected_error, 0);
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Equivalent to [`p.spanned()`].
diff --git a/src/parser/range.rs b/src/parser/range.rs
index d524599..f2d147d 100644
--- a/src/parser/range.rs
+++ b/src/parser/range.rs
@@ -198,9 +198,8 @@ where
             (range, value)
         })
     }
-    fn add_error(&mut self, errors: &mut Tracked<<Input as StreamOnce>::Error>) {
-        self.0.add_error(errors)
-    }
+
+    forward_parser!(Input, add_error add_committed_expected_error parser_count, 0);
 }
 
 /// Zero-copy parser which returns a pair: (committed input range, parsed value).
-- 
2.43.0


From 709f5bebff34cd6de011e4889ce95f9c7f78044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:00 +0000
Subject: [PATCH 29/31] fix: a function parser cannot be resumed on partial
 input

A function has no state to resume from, so on partial input it is given back its input
like any other parser without state.
---
 src/parser/function.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/parser/function.rs b/src/parser/function.rs
index 4d93b4a..9c2a7ad 100644
--- a/src/parser/function.rs
+++ b/src/parser/function.rs
@@ -1,12 +1,36 @@
 //! Parsers constructor from regular functions
 
 use crate::{
-    error::{ParseResult, StdParseResult},
+    error::{
+        ParseResult::{self, *},
+        ResultExt, StdParseResult,
+    },
     lib::marker::PhantomData,
     stream::Stream,
     Parser,
 };
 
+fn parse_function<Input, O>(
+    input: &mut Input,
+    f: impl FnOnce(&mut Input) -> StdParseResult<O, Input>,
+) -> ParseResult<O, Input::Error>
+where
+    Input: Stream,
+{
+    if input.is_partial() {
+        // A function has no state to resume from so it must get to see its input from the start
+        // again once there is more of it
+        let before = input.checkpoint();
+        let result = f(input).into();
+        if let CommitErr(_) = result {
+            ctry!(input.reset(before).committed());
+        }
+        result
+    } else {
+        f(input).into()
+    }
+}
+
 impl<'a, Input: Stream, O> Parser<Input>
     for dyn FnMut(&mut Input) -> StdParseResult<O, Input> + 'a
 {
@@ -15,7 +39,7 @@ impl<'a, Input: Stream, O> Parser<Input>
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_function(input, self)
     }
 }
 
@@ -76,7 +100,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.0)(input).into()
+        parse_function(input, &mut self.0)
     }
 }
 
@@ -89,7 +113,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        self(input).into()
+        parse_function(input, self)
     }
 }
 
@@ -125,7 +149,7 @@ where
 
     #[inline]
     fn parse_lazy(&mut self, input: &mut Input) -> ParseResult<O, Input::Error> {
-        (self.parser)(self.env.clone(), input).into()
+        parse_function(input, |input| (self.parser)(self.env.clone(), input))
     }
 }
 
-- 
2.43.0


From 161417fdda92acdec910a64bdaf0c30c64ab05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 30/31] fix: escaped does not commit when only the escape token
 was consumed

---
 src/parser/repeat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 1dec41c..96e49c6 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -1480,8 +1480,8 @@ where
                                     input,
                                     &mut Default::default(),
                                 ) {
-                                    PeekOk(_) => {}
-                                    CommitOk(_) => {
+                                    // The escape token has been consumed in any case
+                                    PeekOk(_) | CommitOk(_) => {
                                         committed = Commit::Commit(());
                                     }
                                     CommitErr(err) => return CommitErr(err),
-- 
2.43.0


From b9347498c8b8cbb8154dd1ede6f434931cad564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:04 +0000
Subject: [PATCH 31/31] fix: many1 forgets between chunks that a later element
 had committed

---
 src/parser/repeat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/repeat.rs b/src/parser/repeat.rs
index 96e49c6..b971918 100644
--- a/src/parser/repeat.rs
+++ b/src/parser/repeat.rs
@@ -508,6 +508,7 @@ where
             mode,
         };
         elements.extend(iter.by_ref());
+        *committed_state = iter.committed;
 
         iter.into_result_fast(elements).map(|x| {
             *parsed_one = false;
-- 
2.43.0

