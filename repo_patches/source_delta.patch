From 7169be235efb6b097574707be9bc8dd52e9eacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:36 +0000
Subject: [PATCH 01/40] fix: keep the rule that is open at the end of the input

process_block never closed the last rule, so it was dropped unless another
statement followed it.
---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..c5fa297 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,6 +588,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input also ends the rule that is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..8bb4e7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -287,7 +287,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From c5a75a9a2979d8dda7a2ad99a50020ededc62206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:18 +0000
Subject: [PATCH 02/40] fix: resume reading after the endif of a false
 conditional

endif did not recompute the ignoring state, so everything after a block whose
last branch was not taken was skipped.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 71ca1258f4de16fba70fa3325a3affec87ff35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:19 +0000
Subject: [PATCH 03/40] fix: do not evaluate conditionals nested in a branch
 that is not taken

Their arguments may have side effects (eval), and a skipped branch has none.
---
 src/parsers/conditional/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..d0cfe7d 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,16 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
+                // Nested in a branch that is not taken: only the nesting matters,
+                // the arguments must not be evaluated
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From 64d6dd67531e7e91483f08c17a2acd091a470286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 04/40] fix: recognise ${name} references

The parser looked for the closing brace after the dollar sign.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From e09fbc9062535e16dc0023c737c1808cab59251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:22 +0000
Subject: [PATCH 05/40] fix: keep the text after a function call

The remainder returned was the one inside the parentheses, so anything after
$(eval ...) on the same line was lost.
---
 src/parsers/ast/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..c2d10f9 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,8 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        // The call is inside the parentheses, parsing continues after them
+        Ok((_, call)) => Ok((i, call)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
@@ -139,7 +140,7 @@ fn advanced_var<'a>(
                 Err(Err::Failure(context))
             }
         }
-        v => v,
+        Err(e) => Err(e),
     }
 }
 
-- 
2.43.0


From a806422d3bdbea57191965e0cb3352bc262f7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:45 +0000
Subject: [PATCH 06/40] fix: only treat $(name ...) as a call when whitespace
 follows the name

$(evaluate), $(strip_me) and the like were parsed as function calls.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index c2d10f9..bebb4fc 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -162,7 +162,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 731b71658a22ca15feced5a07c0ceee2dfe44f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:47 +0000
Subject: [PATCH 07/40] fix: accept an empty value in a simple assignment

'foo :=' panicked because an empty value has no location.
---
 src/parsers/variable/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..0ef5137 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -343,7 +343,8 @@ fn parse_variable_assignment<'a>(
         let contents = value_ast.eval(names, context);
         let location = value_segment
             .location()
-            .expect("value segment should have nonzero length");
+            .or_else(|| name_segment.location())
+            .unwrap_or(crate::source_location::Location::Synthetic);
         value_ast = ast::preevaluated(location.into(), contents);
     }
 
-- 
2.43.0


From 87ba1c421def87117663fe9c04f4203c0ef0609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 08/40] fix: ?= does not overwrite a variable that already has
 a value

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 0ef5137..8617fd2 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if parameters.flavor == Flavor::Conditional
+                    && !action.modifiers.define
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                // ?= leaves variables that already have a value alone
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From 8cc05954f017a907eb75ed36e2ef19847fab78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 09/40] fix: += on a simply expanded variable expands the
 appended text

The appended text stayed deferred, so later assignments changed the value.
---
 src/parsers/variable/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 8617fd2..d9625fd 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,14 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // += on a simply expanded variable expands the new text immediately as well
+    let appends_to_simple = assignment_type == AssignmentType::Append
+        && context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |v| v.value.flavor == Flavor::Simple);
+
+    if assignment_type == AssignmentType::Simple || appends_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         let location = value_segment
-- 
2.43.0


From 479d4f89845d1505bc34fd509c57d77b821b35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:06 +0000
Subject: [PATCH 10/40] fix: drop recipe lines in the branch of a conditional
 that is not taken

---
 src/parsers/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8bb4e7b..43339d6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -163,9 +163,12 @@ impl ParserState {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
             run_parser!(recipe_line(i, engine.command_char), |line| {
-                // Push the line. This is safe since we only run this parser if
-                // we're currently processing a rule
-                self.push_command_line(line);
+                // Push the line, unless it's in a branch that is not taken. This
+                // is safe since we only run this parser if we're currently
+                // processing a rule
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 668c8a822ffee0ad9c76f366bdc57c741b49e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 11/40] fix: report malformed lines as
 MakefileError::ParseError

process_block panicked on every parse failure instead of returning it.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c5fa297..1ee36f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,9 +580,13 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
+                Err(NErr::Failure(context)) | Err(NErr::Error(context)) => {
+                    return Err(MakefileError::ParseError(match context.into_error_kind() {
+                        nom::ErrorKind::Custom(kind) => kind,
+                        kind => ParseErrorKind::NomError(nom::error_to_u32(&kind)),
+                    }));
+                }
                 Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
             };
 
             i = new_i;
-- 
2.43.0


From 87c4df15bd7663a1bf8a27e29016b481173997b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:30 +0000
Subject: [PATCH 12/40] fix: end a line at whichever of comment and line break
 comes first

A '#' anywhere in the rest of the file merged all lines before it into one,
and the '\r' of Windows line endings was kept in the line.
---
 src/parsers/mod.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 43339d6..9d6c131 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -323,20 +323,33 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    // Whatever comes first ends the line
+    let line_break = input.find_substring("\n");
+    let comment = match line_break {
+        Some(end) => input.slice(..end).find_substring("#"),
+        None => input.find_substring("#"),
+    };
+    match (comment, line_break) {
+        (Some(end), _) => {
+            // Comments
+            let (rest, line) = input.take_split(end);
+            Ok((rest, (line, LineEndReason::Comment)))
+        }
+        (None, Some(end)) => {
+            let rest = input.slice(end + 1..);
+            // Windows line endings have a '\r' to drop as well
+            let line = match input.slice(..end).iter_elements().last() {
+                Some('\r') => input.slice(..end - 1),
+                _ => input.slice(..end),
+            };
+            Ok((rest, (line, LineEndReason::LineBreak)))
+        }
+        (None, None) => {
+            // EOF
+            let (rest, line) = input.take_split(input.input_len());
+            Ok((rest, (line, LineEndReason::EOF)))
+        }
+    }
 }
 
 named!(
-- 
2.43.0


From 02360807fb833596cee92c4c3e1df114c5eadb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:48 +0000
Subject: [PATCH 13/40] fix: keep the body of a define verbatim, including '#'

A '#' after the body swallowed the endef (and everything up to the '#') into
the value, one inside it lost the line break.
---
 src/parsers/mod.rs          | 13 ++++++++-----
 src/parsers/variable/mod.rs |  4 +---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9d6c131..5d6bdc6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -153,11 +153,14 @@ impl ParserState {
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
-        run_parser!(comment::parse_comment_following_whitespace(i), |_| {
-            // Comment lines don't require any particular action
-            info!("Skipping over comment line");
-            Ok(())
-        });
+        // The body of a define is taken verbatim, comments are part of the value
+        if self.current_define.is_none() {
+            run_parser!(comment::parse_comment_following_whitespace(i), |_| {
+                // Comment lines don't require any particular action
+                info!("Skipping over comment line");
+                Ok(())
+            });
+        }
 
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index d9625fd..bd4dbcd 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -401,9 +401,7 @@ pub(crate) fn parse_define_line<'a>(
         i,
         ParseErrorKind,
         alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
+            recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX and Windows line endings
                 nom::rest // EOF
         )
     )?;
-- 
2.43.0


From a269357551d3a0a36fdcc2e34650f4f054558ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:48 +0000
Subject: [PATCH 14/40] fix: match modifier, directive and endef keywords as
 whole words

'exports: x', 'include_dirs: x', 'loader: x' or an 'endefoo' line in a define
were taken for the keyword they start with.
---
 src/parsers/directives/mod.rs | 17 +++++++++--------
 src/parsers/mod.rs            | 10 ++++++++++
 src/parsers/variable/mod.rs   | 14 +++++++-------
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..0e4e7c7 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::keyword_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -97,14 +98,14 @@ pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action,
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(terminated!(pe_fix!(tag_no_case!("export")), keyword_end), parse_ast) => { Action::Export }     |
+            preceded!(terminated!(pe_fix!(tag_no_case!("unexport")), keyword_end), parse_ast) => { Action::Unexport } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("vpath")), keyword_end), parse_ast) => { Action::VPath }       |
+            preceded!(terminated!(pe_fix!(tag_no_case!("include")), keyword_end), parse_ast) => { Action::Include }   |
+            preceded!(terminated!(pe_fix!(tag_no_case!("sinclude")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("-include")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("load")), keyword_end), parse_ast) => { Action::Load }         |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-load")), keyword_end), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 5d6bdc6..e3e0e19 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -368,6 +368,16 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
     fix_error!(input, ParseErrorKind, take_till!(|c| c != ' ' && c != '\t'))
 }
 
+/// Succeeds, consuming nothing, if a keyword ends here
+fn keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not a keyword"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index bd4dbcd..7020c98 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -208,7 +208,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            preceded!(keyword_end, makefile_whitespace)
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -414,11 +414,11 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                terminated!(pe_fix!(tag!("define")), keyword_end) => { |_|  DefineLineAction::IncreaseNesting} |
+                terminated!(pe_fix!(tag!("endef")), keyword_end) => { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From a7feb77e6b4fc40a8add7593b1c6a827d8560fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 15/40] fix: match conditional keywords as whole words

'elsewhere: x' or 'endif_list = x' were taken for else and endif.
---
 src/parsers/conditional/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index d0cfe7d..b4eb997 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -127,6 +127,16 @@ pub(super) fn parse_line<'a>(
     }
 }
 
+/// The keyword of a conditional ends at whitespace or where its first argument starts
+fn conditional_keyword_end<'a>(
+    i: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some('(') | Some('"') | Some('\'') => Ok((i, ())),
+        _ => super::keyword_end(i),
+    }
+}
+
 /// Internal parser of the makefile line. Maybe this should be exposed at a high
 /// level to avoid duplicate work computing the collapsed line?
 fn parse_line_internal<'a>(
@@ -158,7 +168,7 @@ fn parse_line_internal<'a>(
                         tag_no_case!("endif") => { |_| ConditionalType::EndIf }
                     )
                 ),
-                makefile_whitespace
+                preceded!(conditional_keyword_end, makefile_whitespace)
             )
         )
     )?;
-- 
2.43.0


From 34f6cd242b49fe6c71a8cf51faf31e2856883ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:51 +0000
Subject: [PATCH 16/40] fix: propagate the sensitivity of pre-evaluated content

A value computed from a simply expanded variable lost the variables that one
was computed from.
---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From de5e579a0ae5a66d65077b0a5dcdde4eb33c2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:31 +0000
Subject: [PATCH 17/40] fix: match substitution references against the whole
 word

The suffix was searched from the left, so 'a.c.c' did not match '.c', and an
empty stem or an empty key ('$(v:=.o)') never matched.
---
 src/ast/text_functions.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..b0cef99 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -4,6 +4,7 @@ use crate::evaluated::{Block, BlockSpan};
 use crate::parsers::{makefile_take_until_unquote, makefile_token};
 use crate::types::Set;
 use crate::VariableName;
+use nom::Slice;
 use std::sync::Arc;
 
 /// Parses a variable value, and returns the root of the combined tree node
@@ -79,31 +80,15 @@ fn do_replacement<'a>(
             continue;
         }
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
+        let token_text = token.into_string();
+        if !token_text.starts_with(pre_key) || !token_text.ends_with(post_key) {
+            // The key doesn't match, so just push everything and move on
+            debug!("Skipping because the key doesn't match");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
+        // Whatever is between the two ends was captured (possibly nothing)
+        let captured = token.slice(pre_key.len()..token.len() - post_key.len());
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
         Arc::make_mut(&mut output).push_all_contents(captured.clone());
-- 
2.43.0


From 43e107c6b15c55b90c6d2993b439f0293559fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 18/40] fix: do not substitute in a value that is only
 whitespace

---
 src/ast/text_functions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index b0cef99..79aa4c7 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -64,6 +64,11 @@ fn do_replacement<'a>(
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was only whitespace left
+            break;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
-- 
2.43.0


From f56fbbb307b0bcd2b0bc0d9be0dbf02ceb29b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:11 +0000
Subject: [PATCH 19/40] fix: iterate over characters by byte offset

Offsets and lengths of references are in bytes, but the iterators skipped and
took that many characters, so non-ASCII text was garbled.
---
 src/evaluated/block_span.rs        | 18 ++++++++++++------
 src/evaluated/content_reference.rs | 26 +++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..1ec0586 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,9 +156,18 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
-            )),
+            Some(x) => {
+                let mut chars = x.chars();
+                // The offset is in bytes
+                let mut skipped = 0;
+                while skipped < parent.offset {
+                    match chars.next() {
+                        Some(c) => skipped += c.len_utf8(),
+                        None => break,
+                    }
+                }
+                Box::new(BlockSpanCharIteratorInternal::ContentReference(chars))
+            }
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
@@ -183,7 +191,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +199,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..a336a68 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,19 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        let mut chars = self.node.chars();
+        // Offset and length are in bytes
+        let mut skipped = 0;
+        while skipped < self.offset {
+            match chars.next() {
+                Some(c) => skipped += c.len_utf8(),
+                None => break,
+            }
+        }
+        ContentReferenceIter {
+            chars,
+            remaining_bytes: self.length,
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +149,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.chars.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
-- 
2.43.0


From 7306a8575df8ddadc412ec25fba0086d98dd0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 20/40] fix: character positions and substring search in
 non-ASCII spans

position and slice_index mixed characters and bytes, and find_substring
overran its buffer or reported a wrong index when a character is longer than
one byte.
---
 src/evaluated/nom/mod.rs | 67 ++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..caa3632 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,13 +32,23 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
+        // `count` is in characters, the result in bytes
+        let mut seen = 0;
+        for (i, _) in self.iter_indices() {
+            if seen == count {
+                return Some(i);
+            }
+            seen += 1;
+        }
+        if seen == count {
+            Some(self.length)
         } else {
             None
         }
@@ -199,48 +209,25 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
         let mut char_buffer = [0, 0, 0, 0];
         buffer.resize_with(substr.len(), || 0);
 
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
+        if substr.is_empty() {
             return Some(0);
         }
 
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
+        // The buffer is a ring of the last substr.len() bytes
+        let mut bytes_seen = 0;
+        for c in self.iter_elements() {
+            for byte in c.encode_utf8(&mut char_buffer).bytes() {
+                buffer[bytes_seen % substr.len()] = byte;
+                bytes_seen += 1;
+                // attempt to match the current buffer against the substring
+                if bytes_seen >= substr.len()
+                    && (0..substr.len())
+                        .all(|j| buffer[(bytes_seen + j) % substr.len()] == substr_bytes[j])
+                {
+                    debug!("Match found at {:?}", bytes_seen - substr.len());
+                    return Some(bytes_seen - substr.len());
                 }
             }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
-            }
         }
 
         None
-- 
2.43.0


From 1bd5f4b83c3f673f7a6a48b201e381b9f1479d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:37 +0000
Subject: [PATCH 21/40] fix: segments of a span that starts at a segment
 boundary

When the offset equals the length of a segment, the segment is skipped
entirely; slicing it there panicked.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 1ec0586..c2bc624 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -291,7 +291,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index a336a68..ad2ba62 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -204,7 +204,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From ab120a70b072d1f82ff2f0ee85db4f4d332569a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:59 +0000
Subject: [PATCH 22/40] fix: search for unquoted characters in non-ASCII text

Only the last byte of a multi-byte character was counted as text, so the rest
looked like quoting backslashes, and multi-byte stop characters were split.
---
 src/parsers/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e3e0e19..e8a983d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -425,7 +425,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -452,7 +452,7 @@ where
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
@@ -478,7 +478,8 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        let post_idx = stopchar_index + std::cmp::max(stop_character.len(), 1);
+        (tr, Some((stop_character, i.slice(post_idx..))))
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-- 
2.43.0


From c89868a0922abb4ed16ef3a25cc591c8c61b4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:01 +0000
Subject: [PATCH 23/40] fix: do not split multi-byte characters at the end of a
 word

---
 src/parsers/targets/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..708d0c1 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
-- 
2.43.0


From c512e6a5dbbc25b53ef12b8b090b1668ac6412e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:54 +0000
Subject: [PATCH 24/40] fix: strip exactly one backslash and the blanks before
 it at a line continuation

---
 src/parsers/mod.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e8a983d..bf07832 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -540,21 +540,17 @@ pub(crate) fn makefile_line(
                     s.slice(..s.len() - 1)
                 }
                 ParserCompliance::GNU => {
-                    if s.len() < 2 {
-                        // Either the empty string or just "\\" should go to the empty string
-                        s.slice(0..0)
-                    } else {
-                        // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
-                        for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
-                                continue;
-                            }
-                            last_non_whitespace = i;
+                    // In GNU mode we strip off the backslash and all the
+                    // whitespace before it
+                    let content = s.slice(..s.len() - 1);
+                    let mut end = 0;
+                    for (i, c) in content.char_indices() {
+                        if c != ' ' && c != '\t' {
+                            end = i + c.len_utf8();
                         }
-
-                        s.slice(..last_non_whitespace + 1)
                     }
+
+                    content.slice(..end)
                 }
             }
         } else {
-- 
2.43.0


From 5f2a78e0448fb6897b428aa9a8e99a59a040f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:56 +0000
Subject: [PATCH 25/40] fix: recognise drive specs by the characters before the
 colon

---
 src/parsers/targets/mod.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 708d0c1..eedcb9a 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -587,25 +587,18 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
-                    // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
-                    if !ch.is_alphabetic() {
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
                 } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
+                    // Grab the last two characters before the colon. If there
+                    // is only one, condition 2b holds
+                    let (mut before_last, mut last) = (None, None);
+                    for ch in pre.span().iter_elements() {
+                        before_last = last;
+                        last = Some(ch);
+                    }
                     // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
+                    if !last.map_or(false, |ch| ch.is_alphabetic())
+                        || !before_last.map_or(true, |ch| ch.is_whitespace() || ch == '(')
+                    {
                         // Condition 1 or 2 failed, not a drive spec
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
-- 
2.43.0


From 007e64f672ce2958e299c9ddc339af5560f3a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:57 +0000
Subject: [PATCH 26/40] fix: offset of a span that starts inside a later
 content reference

---
 src/evaluated/nom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index caa3632..30ce49d 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -252,7 +252,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From 406b075a1b4f333ddeef7fca0a4a874ea1681f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:58 +0000
Subject: [PATCH 27/40] fix: a recipe line continues even if the next line
 lacks the command character

---
 src/parsers/recipe_line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 3c2c94a..c0e5ba4 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -42,7 +42,12 @@ pub(super) fn recipe_line<'a>(
 
     while ends_with_backslash(line.span()) & 1 == 1 {
         Arc::make_mut(&mut line).push(ContentReference::newline()); // Add back the \n we striped
-        let next_line_result = grab_command_line!(i);
+        // The command character is optional on continuation lines
+        let next_line_result = preceded!(
+            i,
+            fix_error!(ParseErrorKind, opt!(char!(command_char))),
+            makefile_grab_line
+        );
         match next_line_result {
             Ok((new_i, (next_line, end_reason))) => {
                 Arc::make_mut(&mut line).push(next_line.to_content_reference());
-- 
2.43.0


From e27a133f32497b0b6c034ea02013dc803ddd0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:30 +0000
Subject: [PATCH 28/40] fix: report lines without a separator

---
 src/parsers/targets/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index eedcb9a..51fc310 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -240,16 +235,16 @@ pub(crate) fn parse_line<'a>(
         mw = (mword.1).0;
         mwt = (mword.1).1;
 
-        if mwt == MWordEnd::EOL {
-            break;
-        }
-
         // Push synthetic spaces between spaces
         debug!("Adding {:?} to expanded content", new_content.into_string());
         if pre_colon_buffer.len() > 0 {
             Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
         }
         Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
+        if mwt == MWordEnd::EOL {
+            break;
+        }
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +413,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From 92e6cdd8b18f54038edfa7c65385bb425af7d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:08 +0000
Subject: [PATCH 29/40] fix: report recipe lines that do not belong to a rule

---
 src/parsers/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index bf07832..9c27149 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -242,7 +242,8 @@ impl ParserState {
             self.handle_directive_action(names, engine, directive_action)
         });
 
-        if line.span().chars().next() == Some(engine.command_char) {
+        // The collapsed line has lost its initial whitespace
+        if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
-- 
2.43.0


From 966a5582daf30d6dd4f5525aa0302a347a3432ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 30/40] fix: keep a comment after the name out of the body of a
 define

---
 src/parsers/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9c27149..5be5b4e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -120,6 +120,8 @@ impl ParserState {
         names: &mut NameCache,
         engine: &mut Engine,
     ) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+        use nom::Slice;
+
         let line_start = i;
         /// A small macro that returns on Err(NErr::Failure) or Ok()
         /// but "backtracks" (ignores the result) on recoverable failures or
@@ -185,6 +187,17 @@ impl ParserState {
         // TODO: expose the parser compliance knob upstream
         let (i, line) = makefile_line(i, ParserCompliance::GNU, true)?;
 
+        // If a comment ended the line, it is part of the line
+        let ended_by_break = match line_start.slice(..line_start.len() - i.len()).chars().last() {
+            Some('\n') => true,
+            _ => i.len() == 0,
+        };
+        let i = if ended_by_break {
+            i
+        } else {
+            comment::parse_comment(i)?.0
+        };
+
         // Convenience macro for running parsers against the line
         macro_rules! run_line_parser(
             ($parsed:expr, $cleanup:expr) => {
-- 
2.43.0


From 52698978c4dc8bd2b9e34569422e7540da95a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 31/40] fix: do not step over the end of a word after an
 escaped multi-byte blank

---
 src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 5be5b4e..f469f0a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -484,8 +484,10 @@ where
             // Odd number of slashes. Leave next_push_start set up
             next_push_start = idx;
         } else {
-            // Even number of slashes. Indicate that we found the stopchar
+            // Even number of slashes. Indicate that we found the stopchar, which
+            // is not any of the escaped ones we saw before
             stopchar_index = idx - 1;
+            stop_character = None;
         }
     }
 
-- 
2.43.0


From e841a01d6aa5ac76a25db8b67b7373d1b9e0834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:05 +0000
Subject: [PATCH 32/40] fix: accept a comment after endef

---
 src/parsers/variable/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 7020c98..e8bb142 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -423,7 +423,8 @@ pub(crate) fn parse_define_line<'a>(
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
+    let only_comment_left = i.chars().next().map_or(true, |c| c == '#');
+    if action == DefineLineAction::DecreaseNesting && !only_comment_left {
         return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
     }
 
-- 
2.43.0


From 37533963a520795a515deb95df1ae324b5b6bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:08 +0000
Subject: [PATCH 33/40] fix: define with ?= leaves a variable that already has
 a value alone

---
 src/parsers/mod.rs          |  3 +++
 src/parsers/variable/mod.rs | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index f469f0a..876397b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -60,6 +60,9 @@ pub(crate) struct DefineState {
 
     // How deeply nested the defines are
     nesting: u32,
+
+    // The body has no effect (`?=` on a variable that already has a value)
+    discard: bool,
 }
 
 /// Contains the information that may come out of a rule line. Note that this is
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index e8bb142..78a957b 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -86,23 +86,27 @@ impl crate::parsers::ParserState {
             unimplemented!("Handling of variable with modifiers {:?}", action.modifiers);
         }
 
+        // ?= leaves variables that already have a value alone
+        let discard = match action.action {
+            Action::Define(ref parameters) => {
+                parameters.flavor == Flavor::Conditional
+                    && engine.database.get_variable(action.name).is_some()
+            }
+            Action::Append(_) => false,
+        };
+
         // If this is a define, just put the parser into define mode
         if action.modifiers.define {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
                 var: action.name,
                 nesting: 1,
+                discard,
             });
         }
 
         match action.action {
-            Action::Define(ref parameters)
-                if parameters.flavor == Flavor::Conditional
-                    && !action.modifiers.define
-                    && engine.database.get_variable(action.name).is_some() =>
-            {
-                // ?= leaves variables that already have a value alone
-            }
+            _ if discard => {}
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
@@ -147,6 +151,10 @@ impl crate::parsers::ParserState {
             }
         }
 
+        if define.discard {
+            return Ok(());
+        }
+
         engine.database = engine.database.append_to_variable(
             define.var,
             action.location,
-- 
2.43.0


From 5a585cc8902fce3035f9323cc81f32f7881f8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:10 +0000
Subject: [PATCH 34/40] fix: define with := expands the body at endef

---
 src/parsers/mod.rs          |  2 +-
 src/parsers/variable/mod.rs | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 876397b..627229b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -182,7 +182,7 @@ impl ParserState {
         } else if self.current_define.is_some() {
             // If we're currently parsing a line inside a define, handle that
             run_parser!(variable::parse_define_line(i), |action| self
-                .handle_define_line(engine, action));
+                .handle_define_line(names, engine, action));
             panic!("Parsing a define line should never fail");
         }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 78a957b..c9c72a5 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -126,6 +126,7 @@ impl crate::parsers::ParserState {
     /// Handle a line inside of a define
     pub(crate) fn handle_define_line(
         &mut self,
+        names: &mut crate::NameCache,
         engine: &mut Engine,
         action: DefineLine,
     ) -> Result<(), ParseErrorKind> {
@@ -144,8 +145,19 @@ impl crate::parsers::ParserState {
             DefineLineAction::DecreaseNesting => {
                 define.nesting -= 1;
                 if define.nesting == 0 {
-                    // If we reach 0 nesting, unset the define line and return immediately
+                    // If we reach 0 nesting, unset the define line and return
+                    // immediately. The value of a simple variable is expanded now
+                    let name = define.var;
                     self.current_define = None;
+                    let value = engine.database.get_variable(name).map(|v| v.value.clone());
+                    if let Some(ref value) = value.filter(|v| v.flavor == Flavor::Simple) {
+                        let contents = value.unexpanded_value.eval(names, engine);
+                        let contents = ast::preevaluated(action.location, contents);
+                        engine.database = engine.database.set_variable(
+                            name,
+                            VariableParameters::new(contents, value.flavor, value.origin),
+                        );
+                    }
                     return Ok(());
                 }
             }
-- 
2.43.0


From e4580284906d88a1b20f1a31f8723930c4c56972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:51 +0000
Subject: [PATCH 35/40] fix: find the assignment operator outside of variable
 references

---
 src/parsers/variable/mod.rs | 48 +++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index c9c72a5..6b31cfd 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -313,16 +313,44 @@ pub(crate) fn parse_line<'a>(
 fn parse_assignment_operator<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, AssignmentType), ParseErrorKind> {
-    let (i, variable_name) = match take_till!(i, |c: char| c.is_whitespace()
-        || c == ':'
-        || c == '='
-        || c == '!'
-        || c == '?'
-        || c == '+')
-    {
-        Ok(v) => v,
-        Err(_) => return error_out(i, ParseErrorKind::InternalFailure("name not captured")),
-    };
+    use nom::InputTake;
+
+    // The name ends at the first whitespace or operator that is not inside of a
+    // variable reference
+    let mut name_end = i.len();
+    let mut after_dollar = false;
+    let mut reference: Option<(char, char, u32)> = None;
+    for (idx, c) in i.char_indices() {
+        if let Some((open, close, depth)) = reference {
+            reference = if c == close && depth == 1 {
+                None
+            } else if c == close {
+                Some((open, close, depth - 1))
+            } else if c == open {
+                Some((open, close, depth + 1))
+            } else {
+                reference
+            };
+            continue;
+        }
+        if after_dollar {
+            after_dollar = false;
+            match c {
+                '(' => reference = Some(('(', ')', 1)),
+                '{' => reference = Some(('{', '}', 1)),
+                _ => {}
+            }
+            if reference.is_some() || c == '$' {
+                continue;
+            }
+        }
+        after_dollar = c == '$';
+        if c.is_whitespace() || c == ':' || c == '=' || c == '!' || c == '?' || c == '+' {
+            name_end = idx;
+            break;
+        }
+    }
+    let (i, variable_name) = i.take_split(name_end);
 
     debug!(
         "Captured variable name {:?}, {:?} left to parse",
-- 
2.43.0


From 3ecb7f2527762f24b4ed5facd303fa4faeecfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:53 +0000
Subject: [PATCH 36/40] fix: expand the name of a define that has no operator

---
 src/parsers/variable/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 6b31cfd..bc082fb 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -284,7 +284,9 @@ pub(crate) fn parse_line<'a>(
                     }
                 }
                 // Failing that, just assume the whole thing is one big recursive variable name
-                let variable_name = names.intern_variable_name(i.into_string().trim().into());
+                let (_, name_ast) = parse_ast(i)?;
+                let variable_name = name_ast.eval(names, context).into_string();
+                let variable_name = names.intern_variable_name(variable_name.trim().into());
                 let rest = i.slice(i.len()..);
                 return Ok((
                     rest,
-- 
2.43.0


From be16ad3805e7d07df636162e143223da95ff585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:20 +0000
Subject: [PATCH 37/40] Verification hook: read access to the unexpanded
 command (cfg hastur_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1ee36f5..64d1930 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,6 +143,14 @@ pub struct Command {
     unexpanded_command: AstNode,
 }
 
+#[cfg(hastur_verif)]
+impl Command {
+    /// Verification hook: the unexpanded text of the command
+    pub fn verif_ast(&self) -> &AstNode {
+        &self.unexpanded_command
+    }
+}
+
 /// Represents what type of rule this is (standard, double colon, static pattern, etc.)
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub enum RuleType {
-- 
2.43.0


From 48b88dd20dcfd542ea2099d2411e508eaff8fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:16 +0000
Subject: [PATCH 38/40] fix: a replacement without % takes the place of the
 whole word

---
 src/ast/text_functions.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 79aa4c7..6b52fa4 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -24,16 +24,16 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     pre_replacement.span(),
-                    post_replacement,
+                    Some(post_replacement),
                 ),
-                // Only key had a %
+                // Only key had a %, the replacement takes the place of the whole word
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
-                    BlockSpan::empty(),
                     replacement.span(),
+                    None,
                 ),
             }
         }
@@ -43,7 +43,7 @@ pub(super) fn do_subref(
             "",
             &key.into_string(),
             BlockSpan::empty(),
-            replacement.span(),
+            Some(replacement.span()),
         ),
     }
 }
@@ -55,7 +55,7 @@ fn do_replacement<'a>(
     pre_key: &str,
     post_key: &str,
     pre_replacement: BlockSpan,
-    post_replacement: BlockSpan,
+    post_replacement: Option<BlockSpan>,
 ) -> Arc<Block> {
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
@@ -96,8 +96,10 @@ fn do_replacement<'a>(
         let captured = token.slice(pre_key.len()..token.len() - post_key.len());
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
-        Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
+        if let Some(post_replacement) = post_replacement {
+            Arc::make_mut(&mut output).push_all_contents(captured.clone());
+            Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
+        }
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
     // the block before returning it
-- 
2.43.0


From 9f57a72abee326cf7e89d147a1f7551c807159ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:43 +0000
Subject: [PATCH 39/40] fix: keep an escaped character at the end of a line in
 its word

---
 src/parsers/targets/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 51fc310..42d3102 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -505,11 +505,12 @@ fn next_mword<'a>(
 
         if chr == '\\' {
             prev_char = chr;
-            if let Some((_, chr)) = char_iter.peek() {
-                let chr = *chr;
+            if let Some((idx, chr)) = char_iter.peek() {
+                let (idx, chr) = (*idx, *chr);
                 if chr == ':' || chr == ';' || chr == '=' || chr == '\\' {
                     // This is escaping something, skip forward
                     prev_char = chr;
+                    stop_index = idx + chr.len_utf8();
                     char_iter.next();
                 }
             }
-- 
2.43.0


From 48451659c5597316b84904c8e4b698c24595ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 40/40] fix: report text after else as such instead of an
 internal error

---
 src/parsers/conditional/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b4eb997..80cfca3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -318,11 +318,17 @@ fn parse_else<'a>(
     let (input, _) = makefile_whitespace(input)?;
     if input.len() > 0 {
         // There is something non-whitespace, so we *must* find another conditional
-        let (input, cond) = return_error!(
-            input,
-            ErrorKind::Custom(ParseErrorKind::ExtraTokensAfter("else")),
-            parse_line_internal
-        )?;
+        let (input, cond) = match parse_line_internal(input) {
+            Err(Err::Error(context)) => {
+                let kind = match context.into_error_kind() {
+                    // A malformed conditional knows better what is wrong
+                    kind @ ErrorKind::Custom(ParseErrorKind::BadIfEqSeparator) => kind,
+                    _ => ErrorKind::Custom(ParseErrorKind::ExtraTokensAfter("else")),
+                };
+                return Err(Err::Failure(Context::Code(input, kind)));
+            }
+            result => result?,
+        };
 
         match cond {
             Conditional::IfDef(_)
-- 
2.43.0

