From 88aba33975f3f4c62f57ea900cabead97f35b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 01/27] fix: a backslash inside a comment no longer escapes
 what follows the comment

---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..112616e 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -356,6 +356,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -364,7 +365,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From 47c380642387dc0ddd04629706b3e2c7c339e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 02/27] fix: stage 1 keeps the bracket kind of a scope

---
 src/ast1/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 112616e..9f10775 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,12 +300,11 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
-                        ScopeVariant::Curly,
-                    )),
+                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
-- 
2.43.0


From 40cc9610988425a84969348b5227c9af35c72a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 03/27] fix: stage 1 keeps a backslash at the end of the source

---
 src/ast1/document.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 9f10775..7b229f7 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -490,6 +490,14 @@ impl FromStr for Document {
             }
         }
 
+        // a lone backslash at the end of document is a command without a label
+        if escaped {
+            chunks.push(Chunk::new_unchecked(
+                line_no,
+                ChunkVariant::Command(Command::new_unchecked(String::new(), Vec::new())),
+            ))
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From a8ea777055f838f6ecd7fa315d05a2f56d60eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 04/27] fix: stage 1 keeps brackets nested in a command
 argument of the same kind

---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 7b229f7..c9ba0cd 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -454,8 +454,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From 194304be6c5d4a942e27bbfa8012f28b34cdb44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 05/27] fix: an escaped bracket or whitespace after a command
 is a command of its own

---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index c9ba0cd..9e66edf 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -411,10 +411,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 120b65dd09a3605f1836fcb29b9b7bf9274c4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 06/27] fix: a command name ends at a dollar sign

---
 src/ast1/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 9e66edf..0227194 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -470,7 +470,8 @@ impl FromStr for Document {
                             crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),
                         ))
                     }
-                    c if *depth == 0 && !buffer.no_scope() => {
+                    // a dollar sign is never a part of the label, it delimits maths
+                    c if *depth == 0 && (c == '$' || !buffer.no_scope()) => {
                         flush!();
                         buffer = Buffer::text();
                         buffer.push(c);
-- 
2.43.0


From a1035465c84c7a2ade6da2e02be273eb130a1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 07/27] fix: an escaped newline is on the line of its backslash

---
 src/ast1/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 0227194..ffcf2ed 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -367,10 +367,14 @@ impl FromStr for Document {
                 _ => {}
             }
 
+            // line of the backslash, if the current character is escaped
+            let escape_line_no = if c == '\n' { line_no - 1 } else { line_no };
+
             match &mut buffer {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = escape_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -425,13 +429,13 @@ impl FromStr for Document {
 
                             flush(
                                 &mut buffer,
-                                buffer_line_no
+                                escape_line_no
                                     - trailing.chars().filter(|c| *c == '\n').count() as u32,
                                 &mut chunks,
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = escape_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
-- 
2.43.0


From 1f69f9e73fe3b0d1535ef35be76de8beaf93e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 08/27] fix: line number of whitespace after the last command

---
 src/ast1/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index ffcf2ed..32de64f 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -496,6 +496,8 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no =
+                    line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From 2dd04df382bd6a329fc1ee9eeb64d79642bb996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 09/27] fix: error lines inside command arguments count the
 newlines before the argument

---
 src/ast1/document.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 32de64f..4ea6d4b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -315,10 +315,20 @@ impl FromStr for Document {
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
 
+                    // newlines between the start of the command and the current argument
+                    let mut offset = 0;
+
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        offset += preceding.chars().filter(|c| *c == '\n').count() as u32;
+                        let chunks = Document::from_str(content).map_err(|mut e| {
+                            e.line += offset;
+                            e
+                        })?;
+                        offset += content.chars().filter(|c| *c == '\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(chunks.chunks_owned(), *variant),
                         ))
                     }
 
@@ -496,8 +506,7 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
-                buffer_line_no =
-                    line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
+                buffer_line_no = line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From e8123e4a7b57dd0372444ca2785290b5df1146de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 10/27] fix: an environment is on the line of its begin command

---
 src/ast2/chunk.rs    | 7 ++++---
 src/ast2/document.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..8f1081e 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,9 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
                             + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -59,6 +58,8 @@ impl ast1::IntoChunks for Chunk {
                                         )
                                 })
                                 .sum::<usize>()) as u32;
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
 
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
@@ -80,7 +81,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..60f05fc 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -201,7 +201,10 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut chunks = Vec::new();
 
         let mut buffer_stack = Vec::new();
+        // line of the first line of content in the current environment
         let mut buffer_start = 0;
+        // line of the begin command of the current environment
+        let mut env_line_no = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
         let mut prec_begin = String::new();
@@ -284,6 +287,8 @@ impl TryFrom<crate::ast1::Document> for Document {
                             if buffer_stack.len() == 1 {
                                 // was empty
 
+                                env_line_no = line_no;
+
                                 fn lines(s: &str) -> usize {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
@@ -336,7 +341,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_line_no,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +366,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                env_line_no,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From a969ea2f2804dcaf62bc47777e9927c5c073ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 11/27] fix: absolute error lines at stage 2

---
 src/ast2/command.rs  | 12 +++++++++++-
 src/ast2/document.rs | 33 ++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..6b2a366 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -84,8 +84,18 @@ impl TryFrom<crate::ast1::Command> for Command {
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
 
+        // newlines between the start of the command and the current argument
+        let mut offset = 0;
+
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+            arguments.push((prec, scope))
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 60f05fc..9d10329 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -197,6 +197,10 @@ impl From<ast3::Document> for Document {
 impl TryFrom<crate::ast1::Document> for Document {
     type Error = crate::Error;
     fn try_from(value: crate::ast1::Document) -> Result<Self, Self::Error> {
+        fn lines(s: &str) -> usize {
+            s.chars().filter(|c| c == &'\n').count()
+        }
+
         let originals = value.chunks_owned();
         let mut chunks = Vec::new();
 
@@ -229,7 +233,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -241,7 +245,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
                             return Err(e);
                         }
                     }
@@ -260,7 +264,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -289,10 +293,6 @@ impl TryFrom<crate::ast1::Document> for Document {
 
                                 env_line_no = line_no;
 
-                                fn lines(s: &str) -> usize {
-                                    s.chars().filter(|c| c == &'\n').count()
-                                }
-
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -336,8 +336,23 @@ impl TryFrom<crate::ast1::Document> for Document {
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
 
+                                // line of the current argument
+                                let mut arg_line_no = env_line_no
+                                    + (lines(&prec_begin)
+                                        + lines(
+                                            &ast1::Document::new_unchecked(label.chunks().clone())
+                                                .to_string(),
+                                        )) as u32;
+
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    arg_line_no += lines(&prec) as u32;
+                                    let scope_lines = scope.lines() - 1;
+                                    let scope = Scope::try_from(scope).map_err(|mut e| {
+                                        e.line += arg_line_no - 1;
+                                        e
+                                    })?;
+                                    arg_line_no += scope_lines;
+                                    args_new.push((prec, scope))
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-- 
2.43.0


From 50246f78a1d305eb28cfab68f940e246d298160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 12/27] fix: keep the delimiters of maths nested in maths of
 the same brackets

---
 src/ast3/mathsblock.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..06a6c50 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -82,6 +82,15 @@ impl MathsBlock {
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
+            macro_rules! push_buffer {
+                ($x:expr) => {
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command($x),
+                    ))
+                };
+            }
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -109,13 +118,15 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    push_buffer!(cmd);
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    push_buffer!(cmd);
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +164,15 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    push_buffer!(cmd);
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    push_buffer!(cmd);
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 348f72f07f14bb926f83665b11ce37d78fac39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 13/27] fix: lines inside bracket maths are relative to the
 maths block

---
 src/ast3/mathsblock.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 06a6c50..3004e5e 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -62,6 +62,22 @@ impl Lines for MathsBlock {
 }
 
 impl MathsBlock {
+    /// Maps the content of a maths block which starts on `start_line`,
+    /// the lines of the mapped chunks are relative to that line
+    fn from_content(
+        mut chunks: Vec<ast2::Chunk>,
+        start_line: u32,
+    ) -> Result<Vec<Chunk>, crate::Error> {
+        for chunk in chunks.iter_mut() {
+            *chunk.line_no_mut() -= start_line - 1;
+        }
+
+        Self::from_chunks(chunks).map_err(|mut e| {
+            e.line += start_line - 1;
+            e
+        })
+    }
+
     /// Maps a `Vec<ast2::Chunk>` to `Vec<Chunk>` with MathsBlocks
     pub fn from_chunks(chunks: Vec<ast2::Chunk>) -> Result<Vec<Chunk>, crate::Error> {
         #[derive(PartialEq)]
@@ -140,7 +156,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -156,7 +172,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
-- 
2.43.0


From c6d4cc22eacfa1353fc5a1e0f5527cbf47f1a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 14/27] fix: dollar maths spanning several chunks

---
 src/ast3/mathsblock.rs | 44 +++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 3004e5e..b3edfb8 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -222,10 +222,17 @@ impl MathsBlock {
                     macro_rules! push_str {
                         () => {
                             if !text_buffer.is_empty() {
-                                out.push(Chunk::new_unchecked(
-                                    text_buffer_line,
-                                    ChunkVariant::Text(std::mem::take(&mut text_buffer)),
-                                ))
+                                if mode == MathsMode::None {
+                                    out.push(Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                } else {
+                                    buffer.push(ast2::Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ast2::ChunkVariant::Text(std::mem::take(&mut text_buffer)),
+                                    ))
+                                }
                             }
                         };
                     }
@@ -240,6 +247,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -263,19 +271,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
@@ -295,19 +297,13 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::from_content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
-- 
2.43.0


From c81a53b861d185477c57086df0169063d7189eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 15/27] fix: a single dollar does not close display maths

---
 src/ast3/mathsblock.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index b3edfb8..914e5e2 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -107,6 +107,13 @@ impl MathsBlock {
                 };
             }
 
+            // `$$` cannot be closed by a single `$`
+            if mode == MathsMode::DoubleClosing
+                && !matches!(&variant, ast2::ChunkVariant::Text(s) if s.starts_with('$'))
+            {
+                break;
+            }
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -238,6 +245,13 @@ impl MathsBlock {
                     }
 
                     for c in s.chars() {
+                        if mode == MathsMode::DoubleClosing && c != '$' {
+                            return Err(crate::Error::new(
+                                buffer_line,
+                                crate::ErrorType::UnclosedMaths,
+                            ));
+                        }
+
                         if c == '\n' {
                             cursor_line_no += 1
                         }
-- 
2.43.0


From 52dca6e01f5bf8ded7005de88b19917366524cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 16/27] fix: a paragraph break is on the line of its first
 newline

---
 src/ast3/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..1682f09 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -33,7 +33,9 @@ impl Paragraph {
                             buffer.push(c);
                         }
                         '\n' => {
-                            buffer_line = line_no;
+                            if consec_newlines == 0 {
+                                buffer_line = line_no;
+                            }
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From 8a6c45a1daec6c9cb31c3030fe1afde2eaacb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 17/27] fix: absolute error lines at stage 3

---
 src/ast3/command.rs     | 11 ++++++++++-
 src/ast3/document.rs    |  7 ++++++-
 src/ast3/environment.rs | 22 ++++++++++++++++++++--
 src/ast3/mathsblock.rs  | 15 ++++++++++++---
 4 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..b630ea4 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -68,9 +68,18 @@ impl TryFrom<ast2::Command> for Command {
         let (label, args) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        // number of newlines before the current argument
+        let mut offset = label.chars().filter(|c| c == &'\n').count() as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+            args_new.push((prec, scope));
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..79f94ac 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -290,7 +290,12 @@ impl TryFrom<ast2::Document> for Document {
 
             match variant {
                 ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..10d255e 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -89,15 +89,33 @@ impl TryFrom<ast2::Environment> for Environment {
         let (label, args, content, prec_begin, prec_end) = value.decompose();
 
         let mut args_new = Vec::with_capacity(args.len());
+        // number of newlines before the current argument
+        let mut offset = prec_begin
+            .chars()
+            .chain(label.chars())
+            .filter(|c| c == &'\n')
+            .count() as u32;
 
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+            args_new.push((prec, scope));
         }
 
+        let content = MathsBlock::from_chunks(content).map_err(|mut e| {
+            e.line += offset;
+            e
+        })?;
+
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(content),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 914e5e2..1a50c87 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -107,6 +107,15 @@ impl MathsBlock {
                 };
             }
 
+            macro_rules! map_e {
+                ($x:expr) => {
+                    $x.map_err(|mut e: crate::Error| {
+                        e.line += line_no - 1;
+                        e
+                    })?
+                };
+            }
+
             // `$$` cannot be closed by a single `$`
             if mode == MathsMode::DoubleClosing
                 && !matches!(&variant, ast2::ChunkVariant::Text(s) if s.starts_with('$'))
@@ -200,19 +209,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e!(s.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e!(env.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e!(cmd.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
-- 
2.43.0


From 12543806748d07dbe9929be83f5a4fa7ac053b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 18/27] fix: lines of the trailing part are relative to it

---
 src/ast3/document.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 79f94ac..6046ebd 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -276,6 +276,8 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut preamable = Vec::new();
         let mut trailing = Vec::new();
+        // line on which the trailing part starts
+        let mut trailing_start = 1;
 
         #[derive(PartialEq)]
         enum CursorState {
@@ -290,6 +292,7 @@ impl TryFrom<ast2::Document> for Document {
 
             match variant {
                 ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                    trailing_start = line_no + env.lines() - 1;
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
                             e.line += line_no - 1;
@@ -431,12 +434,19 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - trailing_start + 1,
+                    variant,
+                )),
             }
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_start - 1;
+                e
+            })?);
 
         Ok(construct)
     }
-- 
2.43.0


From 15e9a626e80e8e2d7b8404d43560020141d3fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 19/27] fix: a second document environment does not replace the
 first

---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 6046ebd..97167bf 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -291,7 +291,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     trailing_start = line_no + env.lines() - 1;
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
-- 
2.43.0


From 1ee5d54cf3bf3379ffaab37a9c77e15546d4164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 20/27] fix: print the whitespace of the document's end command

---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 97167bf..77b4e83 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -496,7 +496,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 12658194ca2df3a55cecd80c2d04b9c3c868a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 21/27] fix: documentclass option keys and values

---
 src/ast3/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 77b4e83..4c763dd 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -354,6 +354,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
@@ -406,11 +407,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
+                                                    if !val_started {
                                                         val_started = true;
                                                     }
 
-- 
2.43.0


From 5dfe6cba1c17ddc01faad92abdb80517cdf2b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 22/27] fix: a source without document environment does not
 gain one

---
 src/ast2/document.rs |  5 ++++-
 src/ast3/document.rs | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 9d10329..df33090 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -139,6 +139,7 @@ impl Lines for Document {
 
 impl From<ast3::Document> for Document {
     fn from(value: ast3::Document) -> Self {
+        let has_body = value.has_body();
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
@@ -179,7 +180,9 @@ impl From<ast3::Document> for Document {
 
         let trailing_offset = body.lines() + prem_lines - 2;
 
-        out.push_chunk_unchecked(body);
+        if has_body {
+            out.push_chunk_unchecked(body);
+        }
 
         trailing
             .into_iter()
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 4c763dd..9b5e734 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -28,6 +28,9 @@ pub struct Document {
     body_end_prec: String,
 
     trailing: Vec<Chunk>,
+
+    // parsed from a source without document environment
+    no_body: bool,
 }
 
 impl Validate for Document {
@@ -113,9 +116,15 @@ impl Document {
             body_begin_prec,
             body_end_prec,
             trailing,
+            no_body: false,
         }
     }
 
+    /// Whether there is a document environment
+    pub(crate) fn has_body(&self) -> bool {
+        !self.no_body || !self.body.is_empty()
+    }
+
     /// Returns the chunks representing the preamable
     pub fn chunks_preamable(&self) -> &Vec<Chunk> {
         &self.preamable
@@ -444,6 +453,7 @@ impl TryFrom<ast2::Document> for Document {
             }
         }
 
+        construct.no_body = cursor == CursorState::Preamable;
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
         construct.trailing =
             Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
@@ -465,6 +475,14 @@ impl FromStr for Document {
 
 impl Display for Document {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        if !self.has_body() {
+            return self
+                .preamable
+                .iter()
+                .chain(self.trailing.iter())
+                .try_for_each(|chunk| chunk.fmt(f));
+        }
+
         f.write_str(
             self.preamable
                 .iter()
-- 
2.43.0


From 6f8913c98b95e35dcffdf63bc4902f00c277a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 23/27] fix: line numbers when converting stage 3 to stage 2

---
 src/ast2/document.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index df33090..5d49e6b 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -151,21 +151,12 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -178,7 +169,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         if has_body {
             out.push_chunk_unchecked(body);
-- 
2.43.0


From 93658b5a3ddc9934fd68b263b0df47ebd29ac1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 24/27] fix: converting stage 3 to stage 2 joins neighbouring
 text

---
 src/ast2/document.rs    | 19 +++++++++++--------
 src/ast2/environment.rs |  7 ++-----
 src/ast2/scope.rs       |  5 +----
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 5d49e6b..37833be 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -90,6 +90,15 @@ impl Document {
 
         self.0.push(chunk)
     }
+
+    /// Collect chunks, neighbouring texts become one
+    pub(crate) fn merge_text(chunks: impl IntoIterator<Item = Chunk>) -> Vec<Chunk> {
+        let mut out = Self::default();
+        for chunk in chunks {
+            out.push_chunk_unchecked(chunk);
+        }
+        out.chunks_owned()
+    }
 }
 
 impl FromStr for Document {
@@ -143,18 +152,12 @@ impl From<ast3::Document> for Document {
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
-        let preamable = preamable
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let preamable = Self::merge_text(preamable.into_iter().flat_map(ast3::Chunk::into_chunks));
         let prem_lines = preamable.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_chunks = body
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let body_chunks = Self::merge_text(body.into_iter().flat_map(ast3::Chunk::into_chunks));
         let body = Chunk::new_unchecked(
             prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
diff --git a/src/ast2/environment.rs b/src/ast2/environment.rs
index 1dacd12..6972a3d 100644
--- a/src/ast2/environment.rs
+++ b/src/ast2/environment.rs
@@ -7,7 +7,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, IntoChunks as IntoChunks3, Scope};
+use super::{Chunk, Document, IntoChunks as IntoChunks3, Scope};
 
 /// An environment is a scope associated with a command and its arguments
 #[derive(Clone)]
@@ -167,10 +167,7 @@ impl From<ast3::Environment> for Environment {
                 .into_iter()
                 .map(|(s, chunk)| (s, chunk.into()))
                 .collect(),
-            content
-                .into_iter()
-                .flat_map(|chunk| chunk.into_chunks())
-                .collect(),
+            Document::merge_text(content.into_iter().flat_map(|chunk| chunk.into_chunks())),
             prec_begin,
             prec_end,
         )
diff --git a/src/ast2/scope.rs b/src/ast2/scope.rs
index 3b668c2..2729eb7 100644
--- a/src/ast2/scope.rs
+++ b/src/ast2/scope.rs
@@ -118,10 +118,7 @@ impl From<ast3::Scope> for Scope {
     fn from(value: ast3::Scope) -> Self {
         let (chunks, variant) = value.decompose();
         Scope::new_unchecked(
-            chunks
-                .into_iter()
-                .flat_map(ast3::Chunk::into_chunks)
-                .collect(),
+            Document::merge_text(chunks.into_iter().flat_map(ast3::Chunk::into_chunks)),
             variant.into(),
         )
     }
-- 
2.43.0


From 91364d8c82078ba6a680e10f686a42020d85e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 25/27] fix: line count of a document with body arguments

---
 src/ast3/document.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 9b5e734..4666dd1 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -63,7 +63,16 @@ impl Lines for Document {
             .chain(self.body.iter())
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
+            .chain(self.body_args.iter().map(|(prec, arg)| {
+                prec.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1
+            }))
             .sum::<u32>()
+            + self
+                .body_begin_prec
+                .chars()
+                .chain(self.body_end_prec.chars())
+                .filter(|c| c == &'\n')
+                .count() as u32
             + 1
     }
 }
-- 
2.43.0


From b03f54f72a8b74462169c8d9642cad07ad701b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 26/27] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 4666dd1..60918fc 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -52,6 +52,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 07ac342f7693ade5ff59599abc90a36bcf64b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 27/27] fix: a checked push does not leave an unbroken
 paragraph

---
 src/ast3/document.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 60918fc..964ae33 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -167,6 +167,16 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Check the text which a pushed text would become part of
+    fn validate_merged(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        match (vec.last().map(Chunk::variant), variant) {
+            (Some(ChunkVariant::Text(last_s)), ChunkVariant::Text(s)) => {
+                ChunkVariant::Text(format!("{last_s}{s}")).validate()
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
         chunk.validate()?;
@@ -183,6 +193,7 @@ impl Document {
             });
         }
 
+        Self::validate_merged(vec, chunk.variant())?;
         Self::push_chunk_vec_unchecked(vec, chunk);
         Ok(())
     }
@@ -199,6 +210,7 @@ impl Document {
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
         variant.validate()?;
+        Self::validate_merged(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0

