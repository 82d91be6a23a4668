From ea043d5d3a08fc0c0678bc78da8c1e528ac86cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 01/17] fix: append every accepted line to the history file,
 also when the push compacts it

---
 src/history.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..3026a9c 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -256,6 +256,15 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Leave file size alone, if it is not right trigger a reload later.
+                let mut file = BufWriter::new(inner_file);
+                let _ = file.write_all(&item_str.as_bytes());
+                let _ = file.write_all(b"\n");
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
@@ -267,16 +276,11 @@ impl History {
                         // Reload history, we may be out of sync.
                         let _ = self.load_history(false);
                         // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
-                        }
+                        let _ = self.overwrite_history(file_name);
                     } else {
                         // Not using shared history so just de-dup the file without messing with
                         // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
+                        let _ = History::deduplicate_history_file(file_name, self.max_file_size);
                     }
                     self.compaction_writes = 0;
                 }
@@ -284,18 +288,6 @@ impl History {
                 // If allowing duplicates then no need for compaction.
                 self.compaction_writes = 1;
             }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
-            }
         }
         Ok(())
     }
-- 
2.43.0


From 6887d7bc39b237b4607467a27c7ff32a4c8578cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 02/17] fix: report failed writes when saving the history file

---
 src/history.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 3026a9c..165dd61 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -192,9 +192,10 @@ impl History {
             let mut file = BufWriter::new(File::create(&path)?);
             // Write the commands to the history file.
             for command in buf.into_iter() {
-                let _ = file.write_all(&command.as_bytes());
-                let _ = file.write_all(b"\n");
+                file.write_all(&command.as_bytes())?;
+                file.write_all(b"\n")?;
             }
+            file.flush()?;
         }
         Ok("De-duplicated history file.".to_string())
     }
@@ -375,9 +376,10 @@ impl History {
 
         // Write the commands to the history file.
         for command in self.buffers.iter().cloned() {
-            let _ = file.write_all(&String::from(command).as_bytes());
-            let _ = file.write_all(b"\n");
+            file.write_all(&String::from(command).as_bytes())?;
+            file.write_all(b"\n")?;
         }
+        file.flush()?;
         Ok("Wrote history to file.".to_string())
     }
 
-- 
2.43.0


From cc52624f5aacaff60884e74c85fdb767ee0aa1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 03/17] fix: keep the history within its maximum size when it
 is loaded from a file

---
 src/history.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 165dd61..baa00fd 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -140,6 +140,9 @@ impl History {
                     self.buffers.push_back(buf);
                 }
             }
+            while self.buffers.len() > self.max_buffers_size {
+                self.buffers.pop_front();
+            }
         }
         Ok(new_length)
     }
-- 
2.43.0


From def607e15d6b4ed9c17236679db08e409e94c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 04/17] fix: forget history positions that a reload of the
 shared history invalidates

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..1ce6760 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -384,6 +384,10 @@ impl<C: EditorContext> Editor<C> {
         if self.context.history().share && !self.history_fresh {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
+            // The entries may have changed, positions taken before that are no longer valid.
+            self.clear_search();
+            let len = self.context.history().len();
+            self.cur_history_loc = self.cur_history_loc.filter(|&i| i < len);
         }
     }
 
-- 
2.43.0


From fa19c29b327506cec76cc5e7cab5512f35e7acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 05/17] fix: do not delete past the end of the line

---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1ce6760..3e25d07 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -824,6 +824,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -837,9 +838,10 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(cmp::max(self.cursor, position) + 1, buf.num_chars()),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
-- 
2.43.0


From 9f5d7f2deca583b5ad183e37c7501bc8d368f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 06/17] fix: leave the search when moving to the start of the
 history

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 3e25d07..218d4ef 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -736,6 +736,10 @@ impl<C: EditorContext> Editor<C> {
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
         self.hist_buf_valid = false;
+        if self.is_search() {
+            // It would go back to the new line at the next redraw.
+            self.clear_search();
+        }
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
             self.display()
-- 
2.43.0


From 4dabe43fe0d7f04d22dc80706fc7cadb6c3cb95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 07/17] fix: no underflow in cursor_is_at_end_of_line on an
 empty line

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 218d4ef..c3bd7f1 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -905,7 +905,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor == num_chars.saturating_sub(1)
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From a4295afa3eb6e0472605ac283c5a2ada84ca077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 08/17] fix: ask the configured terminal for its width, not the
 process's own stdout

---
 src/editor.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index c3bd7f1..572e036 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
 use strip_ansi_escapes::strip;
-use termion::{self, clear, color, cursor};
+use termion::{clear, color, cursor};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
@@ -494,17 +494,16 @@ impl<C: EditorContext> Editor<C> {
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        w: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
-
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1017,7 +1016,10 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = match self.context.terminal().width()? {
+            0 => 80,
+            width => width,
+        };
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1072,7 +1074,12 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines = 1 + Self::print_completion_list(
+                completions,
+                *i,
+                terminal_width,
+                &mut out_buf,
+            )?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From e156df5e3de616413c7ed37c1326445b75ac15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 09/17] fix: no underflow when the terminal reports a width of
 zero

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 572e036..ebdfdf4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -266,7 +266,7 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            for _ in 0..out.width().unwrap_or(80).saturating_sub(1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-- 
2.43.0


From c4209c4c59ebe0810194feb4bbb39f8ee5051d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 10/17] fix: split a suggestion on a character boundary when
 drawing it

---
 src/editor.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ebdfdf4..625d5ca 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1087,14 +1087,14 @@ impl<C: EditorContext> Editor<C> {
         write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
 
         // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
         let lines = match self.autosuggestion {
             Some(ref suggestion) if show_autosuggest => suggestion.lines(),
             _ => buf.lines(),
         };
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf.num_chars();
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
@@ -1103,13 +1103,14 @@ impl<C: EditorContext> Editor<C> {
                     .map_err(io::Error::other)?;
             }
 
-            if buf_num_remaining_bytes == 0 {
+            let line_num_chars = line.chars().count();
+            if buf_num_remaining_chars == 0 {
                 out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
+            } else if line_num_chars > buf_num_remaining_chars {
+                let start: String = line.chars().take(buf_num_remaining_chars).collect();
                 let start = match self.closure {
-                    Some(ref f) => f(start),
-                    None => start.to_owned(),
+                    Some(ref f) => f(&start),
+                    None => start,
                 };
                 if self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
@@ -1118,10 +1119,12 @@ impl<C: EditorContext> Editor<C> {
                 if !self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
+                out_buf.extend(line.chars().skip(buf_num_remaining_chars));
+                buf_num_remaining_chars = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                // The line break is a character of the buffer, too.
+                buf_num_remaining_chars =
+                    (buf_num_remaining_chars - line_num_chars).saturating_sub(1);
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
-- 
2.43.0


From 796bf5a6fb30d285345c0148e83ddba8a73deea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 11/17] fix: no panic when the search prompt puts the cursor
 below the last line

---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 625d5ca..5f071b8 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1065,7 +1065,7 @@ impl<C: EditorContext> Editor<C> {
 
         // Move the term cursor to the same line as the prompt.
         if self.term_cursor_line > 1 {
-            write!(out_buf, "{}", cursor::Up(self.term_cursor_line as u16 - 1))
+            write!(out_buf, "{}", cursor::Up((self.term_cursor_line - 1) as u16))
                 .map_err(io::Error::other)?;
         }
 
@@ -1158,7 +1158,8 @@ impl<C: EditorContext> Editor<C> {
             write!(&mut out_buf, "{}", cursor::Up(cursor_line_diff as u16))
                 .map_err(io::Error::other)?;
         } else if cursor_line_diff < 0 {
-            unreachable!();
+            write!(&mut out_buf, "{}", cursor::Down((-cursor_line_diff) as u16))
+                .map_err(io::Error::other)?;
         }
 
         // Now that we are on the right line, we must move the term cursor left or right
-- 
2.43.0


From cfe604b1918f2978678b7e15d7d3f67734ae6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 12/17] fix: no stale history index when fetching the last
 argument again

---
 src/keymap/emacs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..9b1f5eb 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -68,7 +68,8 @@ impl Emacs {
 
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
-            Some(x) => x - 1,
+            // the history may have become shorter since, when it is shared
+            Some(x) => x.min(ed.context().history().len()) - 1,
             None => ed
                 .current_history_location()
                 .unwrap_or(ed.context().history().len() - 1),
-- 
2.43.0


From ae78ab980e942b2b49cbb9dd2308e2c10a77e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 13/17] fix: report a failed redraw after ~ instead of
 panicking

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..dac0b1b 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 3a262c7f92f9510e1287d498b31f43c34a3b0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 14/17] fix: close the undo group when a change command is
 aborted

---
 src/keymap/vi.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dac0b1b..8f0ce22 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -47,11 +47,6 @@ impl ModeStack {
         self.0.last().cloned().unwrap_or(Mode::Normal)
     }
 
-    /// Empty the stack and return to normal mode.
-    fn clear(&mut self) {
-        self.0.clear()
-    }
-
     /// Push the given mode on to the stack.
     fn push(&mut self, m: Mode) {
         self.0.push(m)
@@ -463,7 +458,14 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
-        self.mode_stack.clear();
+        // close the undo groups of the modes that are abandoned
+        loop {
+            match self.mode_stack.pop() {
+                Mode::Normal => break,
+                Mode::Insert | Mode::Tilde => ed.current_buffer_mut().end_undo_group(),
+                _ => {}
+            }
+        }
         ed.no_eol = true;
         self.count = 0;
         self.set_editor_mode(&mut ed)
-- 
2.43.0


From 7c821441075af506b4da360b2885b4aea2181d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 15/17] fix: hash a buffer by its text alone, as it is compared

---
 src/buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..8c0c535 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Write as FmtWrite};
+use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::iter::FromIterator;
 use unicode_width::UnicodeWidthStr;
@@ -37,7 +38,7 @@ impl Action {
 /// A buffer for text in the line editor.
 ///
 /// It keeps track of each action performed on it for use with undo/redo.
-#[derive(Clone, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Buffer {
     data: Vec<char>,
     actions: Vec<Action>,
@@ -50,6 +51,11 @@ impl PartialEq for Buffer {
     }
 }
 impl Eq for Buffer {}
+impl Hash for Buffer {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.data.hash(state)
+    }
+}
 
 impl From<Buffer> for String {
     fn from(buf: Buffer) -> Self {
-- 
2.43.0


From 47eede3f22201cb6ae10acbbb5929d3752825261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 16/17] fix: no panic when completing a quoted name that ends
 in a multi-byte character

---
 src/complete.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..68ee5a2 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -60,9 +60,9 @@ impl Completer for FilenameCompleter {
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
             start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
+            let mut chars = start.chars();
+            chars.next_back();
+            start = chars.as_str();
             start.into()
         } else {
             start.replace(r"\ ", " ")
-- 
2.43.0


From 2eedc3eef75a72fd09004d7573316b34b097df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 17/17] fix: no panic when completing a path without a file
 name

---
 src/complete.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 68ee5a2..76a577d 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -82,26 +82,18 @@ impl Completer for FilenameCompleter {
         let p;
         let start_name;
         let completing_dir;
-        match full_path.parent() {
+        match (full_path.parent(), full_path.file_name()) {
             // XXX non-unix separaor
-            Some(parent)
+            (Some(parent), Some(name))
                 if !start.is_empty()
                     && !start_owned.ends_with('/')
                     && !full_path.ends_with("..") =>
             {
                 p = parent;
                 start_name = if self.case_sensitive {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .into_owned()
+                    name.to_string_lossy().into_owned()
                 } else {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .to_lowercase()
+                    name.to_string_lossy().to_lowercase()
                 };
                 completing_dir = false;
             }
-- 
2.43.0

