From 9005d142bbe71a15e7db5ce51c055e690234fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:06 +0000
Subject: [PATCH 1/3] fix: stop parsing at the first error in parse_str and
 parse_stream

take_while needs to see one more item before it ends, so one more
top-level form was parsed after the error: its macros were called and
further stream chunks were pulled.
---
 src/common/helper.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/common/helper.rs b/src/common/helper.rs
index ea51675..4b900e8 100644
--- a/src/common/helper.rs
+++ b/src/common/helper.rs
@@ -14,15 +14,12 @@ pub(crate) fn collect_up_to_first_err<'p, CC, DA, OB, S>
           Parser<CC, DA, OB>: 'p,
           S: SourceStream<DA>,
 {
-    let mut already_errored = false;
-    pi.take_while(|r|
-                  if already_errored {
-                      false
-                  } else {
-                      if r.is_err() {
-                          already_errored = true;
-                      }
-                      true
-                  })
-      .collect()
+    let mut results = vec![];
+    for r in pi {
+        let errored = r.is_err();
+        results.push(r);
+        // Don't ask for another item, because that would parse further.
+        if errored { break }
+    }
+    results
 }
-- 
2.43.0


From 7925055261fc7a524e0e9aa50f15a37c5f8a6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:06 +0000
Subject: [PATCH 2/3] fix: stop parsing at the first error in the core's
 parse_text_with

The returned iterator parsed one more top-level form after the error
before it ended, calling macros and consuming datum slots.  Use a small
iterator type that remembers that it is done.
---
 core/src/premade/inmem.rs | 78 +++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/core/src/premade/inmem.rs b/core/src/premade/inmem.rs
index 3e3cdb1..ecfed75 100644
--- a/core/src/premade/inmem.rs
+++ b/core/src/premade/inmem.rs
@@ -1,7 +1,7 @@
 //! A `Parser` for parsing inputs that are in-memory strings, for no-heap
 //! constrained applications.
 
-use core::iter::TakeWhile;
+use core::fmt;
 
 use crate::{
     Parser as ParserStruct, ParseIter, ParseIterItem, Combiner, Error, Text as _,
@@ -251,38 +251,60 @@ pub fn parse_text_with<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerErro
     input: &'t Text<'input, 'alloc, Extra>,
     parser: &'p mut Parser<'input, 'alloc, 'funs, 'bind, Extra, CombinerError>,
 )
-    // Note: Couldn't figure out how to make this work:
-    // -> impl Iterator<Item = TopFormResult<'input, 'alloc, 'funs, 'bind,
-    //                                       Extra, CombinerError>>
-    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError,
-                     impl FnMut(&Result<DatumType<'input, 'alloc, Extra>,
-                                        Error<StrPos<'input>, CombinerError>>)
-                                -> bool>
+    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError>
 where
     Extra: Eq,
 {
-    let input_source_stream = input.iter();
-    let mut already_errored = false;
-    parser.parse(input_source_stream)
-          .take_while(move |r|
-                      if already_errored {
-                          false
-                      } else {
-                          if r.is_err() {
-                              already_errored = true;
-                          }
-                          true
-                      })
+    ParseTextWith {
+        iter: parser.parse(input.iter()),
+        done: false,
+    }
+}
+
+/// The `Iterator` returned by [`parse_text_with`](fn.parse_text_with.html).
+///
+/// It does not ask the parser for anything more after an error.
+pub struct ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
+                         Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+{
+    iter: ParseIter<'parser,
+                    Parser<'input, 'alloc, 'funs, 'bind,
+                           Extra, CombinerError>,
+                    text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
+    done: bool,
+}
+
+/// Manually implemented because deriving it doesn't work.
+impl<'text, 'input, 'alloc, Extra, CombinerError> fmt::Debug
+    for ParseTextWith<'text, '_, 'input, 'alloc, '_, '_, Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+{
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}::ParseTextWith", module_path!())
+    }
 }
 
-type ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
-                   Extra, CombinerError,
-                   Predicate>
-    = TakeWhile<ParseIter<'parser,
-                          Parser<'input, 'alloc, 'funs, 'bind,
-                                 Extra, CombinerError>,
-                          text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
-                Predicate>;
+impl<'text, 'input, 'alloc, Extra, CombinerError> Iterator
+    for ParseTextWith<'text, '_, 'input, 'alloc, '_, '_, Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+    Extra: Eq,
+{
+    type Item = Result<DatumType<'input, 'alloc, Extra>,
+                       Error<StrPos<'input>, CombinerError>>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None
+        }
+        let r = self.iter.next();
+        self.done = !matches!(r, Some(Ok(_)));
+        r
+    }
+}
 
 
 #[cfg(test)]
-- 
2.43.0


From 290bc6ed89453627c0b5559952370b289023195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:44 +0000
Subject: [PATCH 3/3] fix: drop shared branches first so that unwinding stays
 iterative

When a branch could not be taken out because it is also referred to
elsewhere, the drop algorithm gave up and left the rest to recursive
drops.  Lists whose elements are shared, or whose nodes are reached
twice, then overflowed the stack or took quadratic time.
---
 src/drop.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 596809e..18bb649 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -198,7 +198,18 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                       if let Some(left_datum) = trytake(&mut left_dr) {
                           (Side::Left, left_datum, left_dr, right_class, right_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
+                          // The left is shared, so dropping it won't recurse.
+                          // Drop it first, and proceed with the right if it's a
+                          // branch (which might have been shared only by it).
+                          drop(left_dr);
+                          if right_class == Class::Branch {
+                              if let Some(right_datum) = trytake(&mut right_dr) {
+                                  top_datum = right_datum;
+                                  mode_lock = None;
+                                  continue
+                              }
+                          }
+                          // Abort, do nothing more, drop `right_dr`
                           break
                       },
 
@@ -224,10 +235,16 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
                           (Side::Left, left_datum, left_dr, right_class, right_dr)
-                      } else if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
+                          // The left is shared, so dropping it won't recurse.
+                          // Drop it first, because it might be what shares the
+                          // right.
+                          drop(left_dr);
+                          if let Some(right_datum) = trytake(&mut right_dr) {
+                              top_datum = right_datum;
+                              continue
+                          }
+                          // Abort, do nothing more, drop `right_dr`
                           break
                       },
 
-- 
2.43.0

