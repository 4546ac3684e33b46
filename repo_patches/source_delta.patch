From 748ec9c707ecefb8b5c79f1895094943f712f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:31 +0000
Subject: [PATCH] fix: report errors writing the last part of rust-peg's output

Standard output is buffered, and what remains in the buffer when main
returns is flushed by the runtime, which ignores errors. With a full disk
or closed pipe the program exited successfully with truncated output.
---
 peg-macros/bin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peg-macros/bin.rs b/peg-macros/bin.rs
index a66f4c5..9c724d3 100644
--- a/peg-macros/bin.rs
+++ b/peg-macros/bin.rs
@@ -53,4 +53,6 @@ fn main() {
     let mut out = stdout();
     writeln!(&mut out, "// Generated by rust-peg. Do not edit.").unwrap();
     write!(&mut out, "{}", parser_tokens).unwrap();
+    // The implicit flush at exit ignores errors
+    out.flush().unwrap();
 }
-- 
2.43.0

