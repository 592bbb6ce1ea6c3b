From bc896e625b299847c01c5483815d3fbc25dd7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:08 +0000
Subject: [PATCH 1/4] fix: reject binary literals whose high bits shift out of
 the accumulator

checked_shl(1) only fails for shift amounts >= 64, so a set bit followed by
64 or more digits was silently discarded and the literal accepted.
---
 src/assembler/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..ae3a235 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -98,12 +98,12 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
 
   let mut accumulator = 0usize;
 
-  // Each new bit encountered shifts the accumulator left by 1 and is the new lsb.
+  // Each new bit encountered doubles the accumulator (checked, bits must not be lost) and is the new lsb.
   while let Some(result) = value_result_iterator.next() {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 815df500ccb700d35de4924b84254682aa2d86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:00 +0000
Subject: [PATCH 2/4] fix: parse literal and field lists iteratively

Both rules recursed once per comma, so a long enough .db or operand list
overflowed the stack and aborted the assembler instead of being processed.
---
 src/assembler/parser.rs | 73 ++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..5cae2ae 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -287,23 +287,25 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
     
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    loop {
+      // The literal list is complete.
+      if let Some(Token::Newline(_)) = self.current_token {
+        return Ok(result_list);
+      }
 
-    return Ok(result_list);
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
+
+      // A comma following the literal causes the rule to repeat.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
+    }
   }
 
   /**
@@ -357,12 +359,34 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
 
-    // The field list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
+    let mut result_list = list;
+
+    loop {
+      // The field list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the field and append it to the list.
+      let field = try!(self.parse_field());
+      result_list.push(field);
+
+      // A comma following the field causes the rule to repeat.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
     }
+  }
 
+  /**
+   Parses and consumes a single instruction field.
+   field ::= NUMERIC | IDENTIFIER
+   @return The field if successful, or an error.
+   */
+  fn parse_field(&mut self) -> Result<InstructionField<'a>, Error<'a>> {
     let field = match self.current_token {
 
       // A numeric literal parameter was matched.
@@ -415,18 +439,7 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
     };
 
-    // Append the parsed field to the list.
-    let mut result_list = list;
-    result_list.push(field);
-
-    // A comma following the field causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
-    }
-    
-    // Return the complete list.
-    Ok(result_list)
+    Ok(field)
   }
 
   /**
-- 
2.43.0


From fbc967eb4d08dd0ab19c55b3a776911aa452e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:11 +0000
Subject: [PATCH 3/4] fix: recognise DT and ST in any letter case

The README documents registers as case-insensitive, but the mixed-case
spellings (Dt, dT, St, sT) were taken for labels and failed to resolve.
---
 src/assembler/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 5cae2ae..c046d0a 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -401,8 +401,8 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
         let identifier_field = match id {
 
           // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
+           "dt" | "DT" | "Dt" | "dT" => InstructionField::DelayTimer,
+           "st" | "ST" | "St" | "sT" => InstructionField::SoundTimer,
             "i" | "I"   => InstructionField::IndexRegister,
           "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
             "k" | "K"   => InstructionField::KeypadRegister,
-- 
2.43.0


From a1511434c4f718a4cbd65d9568cd89c745eb80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:12 +0000
Subject: [PATCH 4/4] fix: zero-pad operands in disassembly

Operands were padded with spaces ("jp $  5"), which is not valid assembly.
---
 src/assembler/opcode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/assembler/opcode.rs b/src/assembler/opcode.rs
index bd696c8..0ffb94a 100644
--- a/src/assembler/opcode.rs
+++ b/src/assembler/opcode.rs
@@ -120,14 +120,14 @@ impl Opcode {
       Opcode::DEREF_I                                                 => { format!("ld i, [i]") }
       Opcode::TRAP                                                    => { format!("trap") }
       Opcode::TRAPRET                                                 => { format!("trapret") }
-      Opcode::JP              { target }                              => { format!("jp ${:3x}", u16::from(target)) }
-      Opcode::CALL            { target }                              => { format!("call ${:3x}", u16::from(target)) }
-      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:2x}", x, value) }
-      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:2x}", x, value) }
+      Opcode::JP              { target }                              => { format!("jp ${:03x}", u16::from(target)) }
+      Opcode::CALL            { target }                              => { format!("call ${:03x}", u16::from(target)) }
+      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:02x}", x, value) }
+      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:02x}", x, value) }
       Opcode::SE_REGISTER     { register_x: x, register_y: y }        => { format!("se v{:1x}, v{:1x}", x, y) }
       Opcode::SNE_REGISTER    { register_x: x, register_y: y }        => { format!("sne v{:1x}, v{:1x}", x, y) }
-      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:2x}", x, value) }
-      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:2x}", x, value) }
+      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:02x}", x, value) }
+      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:02x}", x, value) }
       Opcode::LD_REGISTER     { register_x: x, register_y: y }        => { format!("ld v{:1x}, v{:1x}", x, y) }
       Opcode::OR              { register_x: x, register_y: y }        => { format!("or v{:1x}, v{:1x}", x, y) }
       Opcode::AND             { register_x: x, register_y: y }        => { format!("and v{:1x}, v{:1x}", x, y) }
@@ -137,9 +137,9 @@ impl Opcode {
       Opcode::SHR             { register_x: x, register_y: _ }        => { format!("shr v{:1x}", x) }
       Opcode::SUBN            { register_x: x, register_y: y }        => { format!("subn v{:1x}, v{:1x}", x, y) }
       Opcode::SHL             { register_x: x, register_y: _ }        => { format!("shl v{:1x}", x) }
-      Opcode::LD_I            { value }                               => { format!("ld i, ${:3x}", u16::from(value)) }
-      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:3x}", u16::from(value)) }
-      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:2x}", x, mask) }
+      Opcode::LD_I            { value }                               => { format!("ld i, ${:03x}", u16::from(value)) }
+      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:03x}", u16::from(value)) }
+      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:02x}", x, mask) }
       Opcode::DRW             { register_x: x, register_y: y, bytes}  => { format!("drw v{:1x}, v{:1x}, ${:1x}", x, y, bytes) }
       Opcode::SE_K            { register_x: x }                       => { format!("skp v{:1x}", x) }
       Opcode::SNE_K           { register_x: x }                       => { format!("sknp v{:1x}", x) }
-- 
2.43.0

