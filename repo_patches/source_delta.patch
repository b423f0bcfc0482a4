From 879ef76a3f3ec0663974aaeef3f8f330a0d2596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 01/43] fix: order of the J1 and J2 bits in the conditional
 branch (B T3)

The offset is SignExtend(S:J2:J1:imm6:imm11:'0') (A7.7.12, encoding T3).
---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..a98a093 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -468,8 +468,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 0f266b655607bbbb234a3bf4083a84bd0cb0beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 02/43] fix: decode BKPT as a 16-bit instruction

BKPT is 1011 1110 imm8; with the wrong opcode it was taken for the first half of a 32-bit instruction
and the instruction that follows it was skipped.
---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index a98a093..b3e9bdc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From 1285bdff4ca163b786ffb0ac4b99d8c9b1ca27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 03/43] fix: recognize `subw sp, sp, #imm12`

SUB (SP minus immediate), encoding T3, was not seen as an allocation of stack space.
---
 src/thumb.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index b3e9bdc..39fdf8e 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -425,6 +425,25 @@ pub fn analyze(
                     }
                 }
             } else if v7
+                && matches(first, "0b11110_x_1_0101_0_1101")
+                && matches(second, "0b0_xxx_xxxx_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                // e.g. 'f6ad 0d04       subw    sp, sp, #2052'
+                let rd = second[1] & 0b1111;
+                if rd == SP {
+                    modifies_sp = true;
+
+                    let imm8 = second[0];
+                    let imm3 = (second[1] >> 4) & 0b0111;
+                    let i = (first[1] >> 2) & 1;
+                    let imm32 = (u32::from(i) << 11) | (u32::from(imm3) << 8) | u32::from(imm8);
+
+                    if let Some(stack) = stack.as_mut() {
+                        *stack += u64::from(imm32);
+                    }
+                }
+            } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
             {
-- 
2.43.0


From 73d543d4a35624ba8a0d569999609baa0cde759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 04/43] fix: stack usage is unknown when a register is added to
 or subtracted from SP

These instructions were ignored: the stack usage was reported without the part they allocate, and a
function with a big frame on ARMv6-M (`add sp, rN`) failed the consistency check against LLVM.
---
 src/thumb.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 39fdf8e..ee2603a 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -93,6 +93,15 @@ pub fn analyze(
         } else if matches(first, "0b000_11_0_0_xxx_xxx_xxx") {
             // A7.7.4 ADD (register) - T1
             continue;
+        } else if matches(first, "0b01000100_1_xxxx_101") {
+            // NOTE we break the alphabetical order because the rule for `ADD (register) - T2`
+            // overlaps with this one
+            // A7.7.6  ADD (SP plus register) - T2
+            // e.g. '44ad            add     sp, r5', which is how ARMv6-M allocates big stack frames
+            modifies_sp = true;
+
+            // we don't know the value of the register
+            stack = None;
         } else if matches(first, "0b010001_00_x_xxxx_xxx") {
             // A7.7.4 ADD (register) - T2
             continue;
@@ -105,9 +114,6 @@ pub fn analyze(
         } else if matches(first, "0b01000100_x_1101_xxx") {
             // A7.7.6  ADD (SP plus register) - T1
             continue;
-        } else if matches(first, "0b01000100_1_xxxx_101") {
-            // A7.7.6  ADD (SP plus register) - T2
-            continue;
         } else if matches(first, "0b1010_0_xxx_xxxxxxxx") {
             // A7.7.7  ADR - T1
             continue;
@@ -443,6 +449,18 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11101_01_1101_x_1101")
+                && matches(second, "0b0_xxx_xxxx_xxxxxxxx")
+            {
+                // A7.7.174      SUB (SP minus register) - T1
+                let rd = second[1] & 0b1111;
+                if rd == SP {
+                    modifies_sp = true;
+
+                    // we don't know the value of the register
+                    stack = None;
+                }
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From 24247fd8ac54826a907ff19b9c36c7297a683ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 05/43] fix: STMDB without writeback does not allocate stack
 space

---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index ee2603a..5fe8915 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -392,7 +392,7 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
-- 
2.43.0


From 751084f1b9152edd73dc160935df5ad0e9f2886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 06/43] fix: recognize pre-decrement STRD, STRB and STRH to SP

---
 src/thumb.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 5fe8915..4a446da 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -581,10 +581,25 @@ pub fn analyze(
                 imm32 += 2 * i + 4;
 
                 bls.push(imm32);
-            } else if matches(first, "0b11111_0000100_xxxx")
+            } else if v7
+                && matches(first, "0b1110_100_1_0_1_1_0_1101")
+            {
+                // A7.7.163  STRD - T1
+                // (writeback, pre-increment, subtract immediate)
+                modifies_sp = true;
+
+                let imm8 = second[0] & 0b1111_1111;
+                let imm32 = u32::from(imm8) << 2;
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm32);
+                }
+            } else if (matches(first, "0b11111_0000100_xxxx")
+                || matches(first, "0b11111_0000000_xxxx")
+                || matches(first, "0b11111_0000010_xxxx"))
                 && matches(second, "0bxxxx_1x01_xxxxxxxx")
             {
-                // A7.7.158  STR - T4
+                // A7.7.158  STR - T4, A7.7.160  STRB - T3, A7.7.167  STRH - T3
                 // (writeback, post/pre-increment, subtract immediate)
 
                 let rn = first[0] & 0b1111;
-- 
2.43.0


From 58bddd61f15db95ff064cb53561b4a3da0db357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 07/43] fix: ThumbExpandImm of 0b0001:imm8 is 0x00XY00XY

---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 4a446da..4d3a571 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -652,7 +652,10 @@ fn thumb_expand_imm(imm12: u16) -> u32 {
         match (imm12 >> 8) & 0b0011 {
             0b00 => u32::from(imm12 & 0b0000_1111_1111),
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => {
+                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+                (imm8 << 16) | imm8
+            }
 
             0b10 => {
                 let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-- 
2.43.0


From e76728a9d2029aa091a9e899b8a1bb272cb6634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 08/43] fix: CBZ and CBNZ are conditionals too

Like for the other branches within a function, the stack usage can't be computed by adding up all the
instructions that modify SP.
---
 src/thumb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 4d3a571..cd441d1 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -190,7 +190,8 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
-            continue;
+            // this is an `if`; give up the stack usage analysis
+            stack = None;
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
             continue;
-- 
2.43.0


From 5f6bca29dbb2cdf8b5f91893c8b20d40cdeb3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 09/43] fix: accept several data tags in a row

A literal pool at the end of the .text section is followed by the data tag of another section, and
LLVM may emit consecutive data tags; both made the analysis panic.
---
 src/thumb.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index cd441d1..59bfeea 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,8 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
-
+                // NOTE several data sections may follow one another
+                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
-- 
2.43.0


From 0642b83f4ac03414d616a922282dc51197d9c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 10/43] fix: analyze all the code of symbols without a size

A symbol of size zero was only analyzed if its first tag was followed by another Thumb tag; otherwise
(literal pool, several functions in a row in one assembler file) it was reported as using no stack
and calling nothing, or as including the code of the functions that follow it.
---
 src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..80bc2e1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -802,16 +802,24 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                 if size == 0 {
                     // try harder at finding out the size of this symbol
+                    let mut end = symbols
+                        .defined
+                        .range(u64::from(address) + 1..)
+                        .next()
+                        .map_or(stext + text.len() as u32, |(next, _)| *next as u32);
+
                     if let Ok(needle) = tags.binary_search_by(|tag| tag.0.cmp(&address)) {
                         let start = tags[needle];
                         if start.1 == Tag::Thumb {
-                            if let Some(end) = tags.get(needle + 1) {
-                                if end.1 == Tag::Thumb {
-                                    size = end.0 - start.0;
+                            if let Some(tag) = tags.get(needle + 1) {
+                                if tag.1 == Tag::Thumb {
+                                    end = end.min(tag.0);
                                 }
                             }
                         }
                     }
+
+                    size = end - address;
                 }
 
                 let start = (address - stext) as usize;
-- 
2.43.0


From f883deaf76594d8f0f8649e437f9ed8c21a7888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 11/43] fix: calls through a bitcast yield one edge, to the
 canonical symbol

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 80bc2e1..13a2d37 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -579,7 +579,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
-                    let callee = if let Some(idx) = indices.get(sym) {
+                    // use canonical name
+                    let name = aliases.get(&sym).copied().unwrap_or(sym);
+                    let callee = if let Some(idx) = indices.get(name) {
                         *idx
                     } else {
                         warn!("no stack information for `{}`", sym);
@@ -589,7 +591,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if callees_seen.insert(callee) {
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From 375c48887c8d5557ff2e61f6829a3cb5ccc72ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 12/43] fix: indirect calls that match no function are not
 dropped

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 13a2d37..ed7a681 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -754,12 +754,22 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
+                    let mut has_callees = false;
                     for (key_sig, indirect) in &mut indirects {
                         if key_sig.loosely_equal(sig) {
+                            has_callees = true;
                             indirect.called = true;
                             indirect.callers.insert(caller);
                         }
                     }
+
+                    if !has_callees {
+                        // no function with this signature; do not lose track of the call because an
+                        // untyped symbol could be its callee
+                        let indirect = indirects.entry(sig.clone()).or_default();
+                        indirect.called = true;
+                        indirect.callers.insert(caller);
+                    }
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
-- 
2.43.0


From dbb4140239949793608b67c7e3ce22def26901c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 13/43] fix: use the spelled out type of calls to variadic
 function pointers

---
 src/ir/define.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..5bf1ac7 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -253,13 +253,15 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    let sig = match output {
+        // the full type is spelled out when the callee is variadic; functions can't return functions
+        Some(Type::Fn(sig)) => sig,
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From f2fff4ab467cda9ac9058ac441411c755a3a30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 14/43] fix: loads and moves into PC are indirect branches

---
 src/thumb.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 59bfeea..06d6cee 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -257,7 +257,13 @@ pub fn analyze(
             continue;
         } else if matches(first, "0b010001_10_x_xxxx_xxx") {
             // A7.7.76  MOV (register) - T1
-            continue;
+            let rd = (first[0] & 0b111) | ((first[0] >> 4) & 0b1000);
+            let rm = (first[0] >> 3) & 0b1111;
+
+            // `mov pc, lr` is just a `return`
+            if rd == 0b1111 && rm != 0b1110 {
+                indirect = true;
+            }
         } else if matches(first, "0b000_00_00000_xxx_xxx") {
             // A7.7.76  MOV (register) - T2
             continue;
@@ -608,6 +614,21 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11111_00_0_x_10_1_xxxx")
+                && matches(second, "0b1111_xxxx_xxxxxxxx")
+            {
+                // A7.7.42  LDR (immediate) - T3, T4
+                // A7.7.43  LDR (literal) - T2
+                // A7.7.44  LDR (register) - T2
+                // (all of them into PC)
+                let rn = first[0] & 0b1111;
+
+                // `ldr pc, [sp], #4` is `pop {pc}`, that is a `return`
+                if !(rn == SP && first[0] & (1 << 7) == 0 && matches(second, "0b1111_1011_xxxxxxxx"))
+                {
+                    indirect = true;
+                }
             } else {
                 // some other 32-bit instruction
                 continue;
-- 
2.43.0


From dd8dc094759b77720a330c60370d6e2a8e48d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 15/43] fix: match start points exactly and by any of their
 names

---
 src/main.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ed7a681..0928318 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1089,27 +1089,27 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
+        // look up a symbol name or any of its aliases
+        let lookup = |name: &str| {
+            let name = aliases.get(name).copied().unwrap_or(name);
+            indices.get(name).cloned()
+        };
+        let start = lookup(start).or_else(|| {
             let hits = indices
                 .keys()
-                .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
-                        Some(key)
-                    } else {
-                        None
-                    }
+                .map(|key| &**key)
+                .chain(aliases.keys().copied())
+                .filter(|key| {
+                    dehash(&rustc_demangle::demangle(key).to_string()) == Some(start)
                 })
-                .collect::<Vec<_>>();
+                .filter_map(|key| lookup(key).map(|idx| (idx, key)))
+                .collect::<BTreeMap<_, _>>();
 
             if hits.len() > 1 {
-                error!("multiple matches for `{}`: {:?}", start, hits);
+                error!("multiple matches for `{}`: {:?}", start, hits.values());
                 None
             } else {
-                hits.first().map(|key| indices[*key])
+                hits.keys().next().copied()
             }
         });
 
-- 
2.43.0


From 828b7e6eb605acd41615cc6d41f3d07b690eef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 16/43] fix: escape backslashes in labels

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0928318..ccd147e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1391,7 +1391,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From a78da9f8ae096ad7015511c49f9991d6885d346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 17/43] fix: names that differ in the Thumb bit belong to one
 function

---
 src/main.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ccd147e..efc7a43 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -395,13 +395,19 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // this time we use the ELF and not the object file
     let mut symbols = stack_sizes::analyze_executable(&elf)?;
 
-    // clear the thumb bit
-    if target_.is_thumb() {
-        symbols.defined = symbols
-            .defined
-            .into_iter()
-            .map(|(k, v)| (k & !1, v))
-            .collect();
+    // names and size of the functions at each address
+    let mut functions = BTreeMap::<u64, (Vec<&str>, u64)>::new();
+    for (address, sym) in &symbols.defined {
+        // clear the thumb bit; names whose addresses only differ in it belong to one function
+        let address = if target_.is_thumb() {
+            address & !1
+        } else {
+            *address
+        };
+
+        let (names, size) = functions.entry(address).or_default();
+        names.extend(sym.names());
+        *size = (*size).max(sym.size());
     }
 
     // remove version strings from undefined symbols
@@ -457,8 +463,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
     let mut addr2name = BTreeMap::new();
-    for (address, sym) in &symbols.defined {
-        let names = sym.names();
+    for (address, (names, _)) in &functions {
         // filter out tags
         let names = names
             .iter()
@@ -809,15 +814,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let stext = sect.address() as u32;
             let text = sect.raw_data(&elf);
 
-            for (address, sym) in &symbols.defined {
+            for (address, (_, size)) in &functions {
+                let canonical_name = addr2name[address];
                 let address = *address as u32;
-                let canonical_name = aliases[&sym.names()[0]];
-                let mut size = sym.size() as u32;
+                let mut size = *size as u32;
 
                 if size == 0 {
                     // try harder at finding out the size of this symbol
-                    let mut end = symbols
-                        .defined
+                    let mut end = functions
                         .range(u64::from(address) + 1..)
                         .next()
                         .map_or(stext + text.len() as u32, |(next, _)| *next as u32);
-- 
2.43.0


From 6f24f3225a6e49178b82e1c8f581f15886aa8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 18/43] fix: a function has the signatures of all of its names

---
 src/main.rs | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index efc7a43..d08a068 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -516,31 +516,36 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
-            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-            match (&def.sig.inputs[..], def.sig.output.as_ref()) {
-                ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
-                    if **fmt == Type::Alias("core::fmt::Formatter")
-                        && **output == Type::Integer(1) =>
-                {
-                    fmts.insert(idx);
+        // all the signatures this function is known under
+        let mut is_typed = false;
+        for name in &names {
+            if let Some(def) = defines.get(name) {
+                is_typed = true;
+
+                // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
+                match (&def.sig.inputs[..], def.sig.output.as_ref()) {
+                    ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
+                        if **fmt == Type::Alias("core::fmt::Formatter")
+                            && **output == Type::Integer(1) =>
+                    {
+                        fmts.insert(idx);
+                    }
+
+                    _ => {}
                 }
 
-                _ => {}
+                indirects
+                    .entry(def.sig.clone())
+                    .or_default()
+                    .callees
+                    .insert(idx);
+            } else if let Some(sig) = declares.get(name).and_then(|decl| decl.sig.clone()) {
+                is_typed = true;
+                indirects.entry(sig).or_default().callees.insert(idx);
             }
+        }
 
-            indirects
-                .entry(def.sig.clone())
-                .or_default()
-                .callees
-                .insert(idx);
-        } else if let Some(sig) = names
-            .iter()
-            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-            .next()
-        {
-            indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        if !is_typed && !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
             has_untyped_symbols = true;
-- 
2.43.0


From 22223603ec9803632f5450e2ad485bed772ba62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 19/43] fix: only remove hashes from demangled names

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d08a068..65b656b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1532,7 +1532,9 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .map(|hash| {
+                hash.starts_with("::h") && hash.bytes().skip(3).all(|byte| byte.is_ascii_hexdigit())
+            })
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From dfdb53e09ffc7f83eaa9ec5c09c42e6d7820a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 20/43] fix: count functions that are not in the executable
 when shortening names

---
 src/main.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 65b656b..caa9453 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -434,8 +434,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // `bar` and `baz` all have the same address then this maps contains: `foo -> foo`, `bar -> foo`
     // and `baz -> foo`.
     let mut aliases = HashMap::new();
-    // whether a symbol name is ambiguous after removing the hash
-    let mut ambiguous = HashMap::<String, u32>::new();
 
     // we do a first pass over all the definitions to collect methods in `impl Trait for Type`
     let mut default_methods = HashSet::new();
@@ -508,11 +506,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             has_stack_usage_info = true;
         }
 
-        let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
-
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
@@ -1095,6 +1088,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // whether a symbol name is ambiguous after removing the hash; this includes functions that are
+    // not defined in the executable
+    let mut ambiguous = HashMap::<String, u32>::new();
+    for node in g.node_weights() {
+        let demangled = rustc_demangle::demangle(&node.name).to_string();
+        if let Some(dehashed) = dehash(&demangled) {
+            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+        }
+    }
+
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-- 
2.43.0


From 418fa0be73df765eb86023f92fa20c50419554ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 21/43] fix: link memory intrinsics to all the routines they
 can lower to

---
 src/main.rs | 88 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 42 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index caa9453..75cb0f0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -621,66 +621,70 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
-                    let mut call = |callee| {
-                        if !callees_seen.contains(&callee) {
-                            g.add_edge(caller, callee, ());
-                            callees_seen.insert(callee);
-                        }
-                    };
-
                     if target_.is_thumb() && func.starts_with("llvm.") {
                         // we'll analyze the machine code in the ELF file to figure out what these
                         // lower to
                         continue;
                     }
 
+                    // routines that may implement a memory intrinsic
+                    let mut routines: &[&str] = &[];
+
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
                     if func.starts_with("llvm.memcpy.") {
-                        if let Some(callee) = indices.get("memcpy") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memcpy") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memcpy4") {
-                            call(*callee);
-                        }
+                        routines = &[
+                            "memcpy",
+                            // ARMv7-R and the like use these
+                            "__aeabi_memcpy",
+                            "__aeabi_memcpy4",
+                            "__aeabi_memcpy8",
+                        ];
+                    }
 
-                        continue;
+                    if func.starts_with("llvm.memmove.") {
+                        routines = &[
+                            "memmove",
+                            // ARMv7-R and the like use these
+                            "__aeabi_memmove",
+                            "__aeabi_memmove4",
+                            "__aeabi_memmove8",
+                        ];
                     }
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
-                        if let Some(callee) = indices.get("memset") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memset") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memset4") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("memclr") {
-                            call(*callee);
-                        }
+                    if func.starts_with("llvm.memset.") {
+                        routines = &[
+                            "memset",
+                            // ARMv7-R and the like use these
+                            "__aeabi_memset",
+                            "__aeabi_memset4",
+                            "__aeabi_memset8",
+                            "memclr",
+                            "__aeabi_memclr",
+                            "__aeabi_memclr4",
+                            "__aeabi_memclr8",
+                        ];
+                    }
 
-                        if let Some(callee) = indices.get("__aeabi_memclr") {
-                            call(*callee);
-                        }
+                    for &routine in routines {
+                        let callee = if let Some(canon) = aliases.get(routine) {
+                            indices[*canon]
+                        } else if symbols.undefined.contains(routine) {
+                            *indices
+                                .entry(routine.into())
+                                .or_insert_with(|| g.add_node(Node(routine, None, false)))
+                        } else {
+                            continue;
+                        };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr4") {
-                            call(*callee);
+                        if callees_seen.insert(callee) {
+                            g.add_edge(caller, callee, ());
                         }
+                    }
 
+                    if !routines.is_empty() {
                         continue;
                     }
 
-- 
2.43.0


From 52eb2466cccb2b678bb441e3d3492f383d4982f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 22/43] fix: reject invoke and callbr instructions that could
 not be parsed

---
 src/ir/define.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 5bf1ac7..fc192f1 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -268,7 +268,8 @@ fn other(i: &str) -> IResult<&str, Stmt> {
     let i = separated_list1(
         space1,
         map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
+            // calls that could not be parsed must not go unnoticed
+            if ["call", "invoke", "callbr"].contains(&i) {
                 Err(())
             } else {
                 Ok(())
-- 
2.43.0


From 5b385edc3aec8bb321e050054e9e6409bc34248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 23/43] fix: calls to memcmp when it is another name of a
 function or imported

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 75cb0f0..c2e89c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -727,10 +727,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     );
 
                     // some intrinsics can be directly lowered to machine code
-                    // if the intrinsic has no corresponding node (symbol in the output ELF) assume
-                    // that it has been lowered to machine code
+                    // if the intrinsic has no corresponding symbol in the output ELF assume that it
+                    // has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !aliases.contains_key(func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From 9468754ca8083cd39710a93b358e221e37b74ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 24/43] fix: refuse a truncated compiler_builtins archive

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c2e89c9..21eb488 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -375,14 +375,19 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut buf = vec![];
     while let Some(entry) = ar.next_entry() {
         let mut entry = entry?;
+
+        buf.clear();
+        entry.read_to_end(&mut buf)?;
+
         let header = entry.header();
+        if buf.len() as u64 != header.size() {
+            bail!("`{}` is truncated", compiler_builtins_rlib_path);
+        }
 
         if str::from_utf8(header.identifier())
             .map(|id| id.contains("compiler_builtins") && id.ends_with(".o"))
             .unwrap_or(false)
         {
-            buf.clear();
-            entry.read_to_end(&mut buf)?;
             stack_sizes.extend(
                 stack_sizes::analyze_object(&buf)?
                     .into_iter()
-- 
2.43.0


From 2698f2a400d5aec8f0c92bfd7bcc6f7025d1bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 25/43] fix: --target has precedence over the configuration
 file

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 21eb488..7edaee2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -140,7 +140,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -350,7 +350,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From d74e8b1ff544b9a74e08e2a2c903a78d013e3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 26/43] fix: accept the subcommand name that Cargo passes

---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7edaee2..a795d74 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -127,7 +127,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     Builder::from_env(Env::default().default_filter_or("warn")).init();
 
-    let args = Args::parse();
+    // when run as a Cargo subcommand the first argument is the name of the subcommand
+    let args = Args::parse_from(
+        env::args_os()
+            .enumerate()
+            .filter(|(i, arg)| !(*i == 1 && arg == "call-stack"))
+            .map(|(_, arg)| arg),
+    );
     let profile = Profile::Release;
 
     let file = match (&args.example, &args.bin) {
-- 
2.43.0


From 95575ad9bbe4402bdcf2663ecb299f5bd5a79fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 27/43] fix: prefer the application's stack usage records

---
 src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a795d74..7869dff 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -394,11 +394,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             .map(|id| id.contains("compiler_builtins") && id.ends_with(".o"))
             .unwrap_or(false)
         {
-            stack_sizes.extend(
-                stack_sizes::analyze_object(&buf)?
-                    .into_iter()
-                    .map(|(name, stack)| (name.to_owned(), stack)),
-            );
+            for (name, stack) in stack_sizes::analyze_object(&buf)? {
+                // the linker prefers the application's definition
+                stack_sizes.entry(name.to_owned()).or_insert(stack);
+            }
         }
     }
 
-- 
2.43.0


From 90329f31f255b77195375c0484f0b38a2428ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 28/43] fix: prefer the application's definitions

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7869dff..87ff6d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -342,7 +342,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     })?;
     let mut defines = HashMap::new();
     let mut declares = HashMap::new();
-    for item in items.into_iter().chain(compiler_builtins_items) {
+    // the linker prefers the application's definition so it comes last
+    for item in compiler_builtins_items.into_iter().chain(items) {
         match item {
             Item::Define(def) => {
                 defines.insert(def.name, def);
-- 
2.43.0


From 73c7979cba52ce3cd5b3da30c5e0dc60f910e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 29/43] fix: keep the pointer in the label of calls to
 formatting functions

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 87ff6d7..d8a6974 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1069,7 +1069,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // canonicalize the signature
                     if one_true_void != "fmt::Void" {
-                        sig.inputs[0] = Type::Alias("fmt::Void");
+                        sig.inputs[0] = Type::Pointer(Box::new(Type::Alias("fmt::Void")));
                     }
 
                     &fmts
-- 
2.43.0


From fe0f8d4a24e6f4bffce20e7c96faa7934bf3cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:27 +0000
Subject: [PATCH 30/43] fix: understand escape sequences in the names of LLVM
 IR functions

---
 src/ir.rs   | 25 +++++++++++++++++++++++++
 src/main.rs | 29 +++++++++++++++--------------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/ir.rs b/src/ir.rs
index 3c0b36d..dd8dd8e 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::borrow::Cow;
 
 use anyhow::anyhow;
 use nom::{
@@ -86,6 +87,30 @@ pub fn parse(ll: &str) -> anyhow::Result<Vec<Item>> {
     })
 }
 
+/// The symbol that an LLVM name stands for: escape sequences (`\\` and `\xx`) are replaced, a leading
+/// `\01` (which turns off name mangling) is removed
+pub fn symbol(name: &str) -> Cow<str> {
+    if !name.contains('\\') {
+        return Cow::Borrowed(name);
+    }
+
+    let name = name.strip_prefix("\\01").unwrap_or(name);
+    let mut bytes = vec![];
+    let mut rest = name.as_bytes();
+    while let [first, tail @ ..] = rest {
+        let digit = |i: usize| tail.get(i).and_then(|c| char::from(*c).to_digit(16));
+        let (byte, len) = match (first, tail.first(), digit(0), digit(1)) {
+            (b'\\', Some(b'\\'), ..) => (b'\\', 2),
+            (b'\\', _, Some(hi), Some(lo)) => ((hi << 4 | lo) as u8, 3),
+            _ => (*first, 1),
+        };
+        bytes.push(byte);
+        rest = &rest[len..];
+    }
+
+    std::string::String::from_utf8(bytes).map_or(Cow::Borrowed(name), Cow::Owned)
+}
+
 fn items(i: &str) -> IResult<&str, Vec<Item>> {
     let (i, items) = separated_list0(many1(line_ending), crate::ir::item::item)(i)?;
     let i = many0(line_ending)(i)?.0;
diff --git a/src/main.rs b/src/main.rs
index d8a6974..36d8c91 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -346,11 +346,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     for item in compiler_builtins_items.into_iter().chain(items) {
         match item {
             Item::Define(def) => {
-                defines.insert(def.name, def);
+                defines.insert(ir::symbol(def.name), def);
             }
 
             Item::Declare(decl) => {
-                declares.insert(decl.name, decl);
+                declares.insert(ir::symbol(decl.name), decl);
             }
 
             _ => {}
@@ -523,7 +523,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         // all the signatures this function is known under
         let mut is_typed = false;
         for name in &names {
-            if let Some(def) = defines.get(name) {
+            if let Some(def) = defines.get(*name) {
                 is_typed = true;
 
                 // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
@@ -543,7 +543,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     .or_default()
                     .callees
                     .insert(idx);
-            } else if let Some(sig) = declares.get(name).and_then(|decl| decl.sig.clone()) {
+            } else if let Some(sig) = declares.get(*name).and_then(|decl| decl.sig.clone()) {
                 is_typed = true;
                 indirects.entry(sig).or_default().callees.insert(idx);
             }
@@ -563,8 +563,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add edges
     let mut edges: HashMap<_, HashSet<_>> = HashMap::new(); // NodeIdx -> [NodeIdx]
     let mut defined = HashSet::new(); // functions that are `define`-d in the LLVM-IR
-    for define in defines.values() {
-        let canonical_name = match aliases.get(&define.name) {
+    for (name, define) in &defines {
+        let canonical_name = match aliases.get(&**name) {
             Some(canonical_name) => canonical_name,
             None => {
                 // this symbol was GC-ed by the linker, skip
@@ -592,16 +592,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // XXX we have some type information for this call but it's unclear if we should
                     // try harder -- does this ever occur in pure Rust programs?
 
-                    let sym = sym.expect("BUG? unnamed symbol is being invoked");
+                    let sym = ir::symbol(sym.expect("BUG? unnamed symbol is being invoked"));
                     // use canonical name
-                    let name = aliases.get(&sym).copied().unwrap_or(sym);
+                    let name = aliases.get(&*sym).copied().unwrap_or(&sym);
                     let callee = if let Some(idx) = indices.get(name) {
                         *idx
                     } else {
                         warn!("no stack information for `{}`", sym);
 
-                        let idx = g.add_node(Node(sym, None, false));
-                        indices.insert(Cow::Borrowed(sym), idx);
+                        let idx = g.add_node(Node(sym.clone(), None, false));
+                        indices.insert(sym, idx);
                         idx
                     };
 
@@ -611,6 +611,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::DirectCall(func) => {
+                    let symbol = ir::symbol(*func);
+                    let func = &&*symbol;
                     match *func {
                         // no-op / debug-info
                         "llvm.dbg.value" => continue,
@@ -718,8 +720,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         || func.starts_with("llvm.x86.sse2.pmovmskb.")
                         || *func == "llvm.x86.sse2.pause"
                     {
-                        if !llvm_seen.contains(func) {
-                            llvm_seen.insert(func);
+                        if llvm_seen.insert(symbol.clone()) {
                             warn!("assuming that `{}` directly lowers to machine code", func);
                         }
 
@@ -761,8 +762,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         if let Some(idx) = indices.get(*func) {
                             *idx
                         } else {
-                            let idx = g.add_node(Node(*func, None, false));
-                            indices.insert((*func).into(), idx);
+                            let idx = g.add_node(Node(symbol.clone(), None, false));
+                            indices.insert(symbol.clone(), idx);
 
                             idx
                         }
-- 
2.43.0


From dacbabcdba575adaec9f66bae681382484b3e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 31/43] fix: recognize compiler_builtins behind any options of
 --extern

rustc accepts a list of options in front of the crate name, e.g. `priv,noprelude:name=path` or
`noprelude,nounused:name=path`; only `noprelude:` was recognized.
---
 src/wrapper.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 5d0b5f4..01c9803 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -71,7 +71,6 @@ struct Extern {
 
 impl RustcArgs {
     fn parse(args: &mut dyn Iterator<Item = &str>) -> anyhow::Result<Self> {
-        const NOPRELUDE: &str = "noprelude:";
         const DASH_C: &str = "-C";
 
         let mut extra_filename = None;
@@ -85,14 +84,11 @@ impl RustcArgs {
                     let arg = args
                         .next()
                         .ok_or_else(|| anyhow!("missing argument for `--extern`"))?;
-                    let mut arg = &*arg;
-                    if arg.starts_with(NOPRELUDE) {
-                        arg = &arg[NOPRELUDE.len()..];
-                    }
-
                     let mut split = arg.splitn(2, '=');
                     let name = split.next().unwrap(); // cannot fail
                     let path = split.next();
+                    // options may precede the name, e.g. `noprelude:name` or `priv,noprelude:name`
+                    let name = name.splitn(2, ':').last().unwrap(); // cannot fail
 
                     extern_crates.push(Extern {
                         crate_name: name.to_string(),
-- 
2.43.0


From 575497c1ed8296699cc75c5322cd4b60c37ea4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 32/43] fix: give up the stack usage analysis on jump tables

TBB, TBH and `add pc, rN` are branches within the function, just like B and CBZ; the usage of all the
branches was summed up.
---
 src/thumb.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 06d6cee..3d161d2 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -98,7 +98,12 @@ pub fn analyze(
             stack = None;
         } else if matches(first, "0b010001_00_x_xxxx_xxx") {
             // A7.7.4 ADD (register) - T2
-            continue;
+            let rdn = (first[0] & 0b111) | ((first[0] >> 4) & 0b1000);
+
+            if rdn == 0b1111 {
+                // `add pc, rN` is a jump table; give up the stack usage analysis
+                stack = None;
+            }
         } else if matches(first, "0b1010_1_xxx_xxxxxxxx") {
             // A7.7.5  ADD (SP plus immediate) - T1
             continue;
@@ -462,6 +467,13 @@ pub fn analyze(
                     // we don't know the value of the register
                     stack = None;
                 }
+            } else if v7
+                && matches(first, "0b11101_00_0110_1_xxxx")
+                && matches(second, "0b1111_0000_000_x_xxxx")
+            {
+                // A7.7.182      TBB, TBH - T1
+                // this is a jump table; give up the stack usage analysis
+                stack = None;
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
-- 
2.43.0


From bc77db9eb9d9aa3311d3f7b471acac283e079572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 33/43] fix: a load of several registers into PC is an indirect
 branch

`ldm rN, {.., pc}` branches to an address from memory, just like `ldr pc, [rN]`; only loads from SP are
returns.
---
 src/thumb.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 3d161d2..9349a13 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -641,6 +641,20 @@ pub fn analyze(
                 {
                     indirect = true;
                 }
+            } else if v7
+                && (matches(first, "0b11101_00_010_x_1_xxxx")
+                    || matches(first, "0b11101_00_100_x_1_xxxx"))
+                && matches(second, "0b1_x_0_xxxxxxxxxxxxx")
+            {
+                // A7.7.40  LDM, LDMIA, LDMFD - T2
+                // A7.7.41  LDMDB, LDMEA - T1
+                // (all of them into PC)
+                let rn = first[0] & 0b1111;
+
+                // `ldm sp!, {pc}` is `pop {pc}`, that is a `return`
+                if rn != SP {
+                    indirect = true;
+                }
             } else {
                 // some other 32-bit instruction
                 continue;
-- 
2.43.0


From 39110ce375018854eda05d8f137087068211713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 34/43] fix: CBZ and CBNZ to another function are calls

---
 src/thumb.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 9349a13..85e2664 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -189,8 +189,16 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
-            // this is an `if`; give up the stack usage analysis
-            stack = None;
+            let imm5 = i32::from(first[0] >> 3);
+            let i1 = i32::from((first[1] >> 1) & 1);
+            let imm32 = ((i1 << 6) | (imm5 << 1)) + 2 * i + 4;
+
+            if (imm32 as usize) < bytes.len() {
+                // this is an `if`; give up the stack usage analysis
+                stack = None;
+            }
+
+            bs.push(imm32);
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
             continue;
-- 
2.43.0


From ff8a6c920416545d27b1a7bc9edbd88deaa89e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 35/43] fix: functions that are not in the executable can be
 called through pointers

---
 src/main.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36d8c91..c05d902 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -557,6 +557,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // functions that are not defined in the executable can be called through function pointers too
+    for &name in &symbols.undefined {
+        if let Some(sig) = declares.get(name).and_then(|decl| decl.sig.clone()) {
+            indirects.entry(sig).or_default().externs.insert(name);
+        }
+    }
+
     // to avoid printing several warnings about the same thing
     let mut fns_containing_asm = HashSet::new();
     let mut llvm_seen = HashSet::new();
@@ -1097,7 +1104,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let extern_sym = g.add_node(Node("?", None, false));
             g.add_edge(call, extern_sym, ());
         } else {
-            if callees.is_empty() {
+            if callees.is_empty() && indirect.externs.is_empty() {
                 error!("BUG? no callees for `{}`", name);
             }
         }
@@ -1105,6 +1112,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         for callee in callees {
             g.add_edge(call, *callee, ());
         }
+
+        for name in indirect.externs {
+            let callee = *indices
+                .entry(name.into())
+                .or_insert_with(|| g.add_node(Node(name, None, false)));
+            g.add_edge(call, callee, ());
+        }
     }
 
     // whether a symbol name is ambiguous after removing the hash; this includes functions that are
@@ -1540,10 +1554,12 @@ impl fmt::Display for Max {
 
 // used to track indirect function calls (`fn` pointers)
 #[derive(Default, Debug)]
-struct Indirect {
+struct Indirect<'a> {
     called: bool,
     callers: HashSet<NodeIndex>,
     callees: HashSet<NodeIndex>,
+    // callees that are not defined in the executable
+    externs: HashSet<&'a str>,
 }
 
 // removes hashes like `::hfc5adc5d79855638`, if present
-- 
2.43.0


From 998f40d1e2a9bffd3587d5f2e8e1b371b96d222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 36/43] fix: arguments of calls through pointers can be any
 constant

---
 src/ir.rs        | 13 -------------
 src/ir/define.rs | 47 +++++++++++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/ir.rs b/src/ir.rs
index dd8dd8e..d7eefee 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -169,19 +169,6 @@ fn local(i: &str) -> IResult<&str, Local> {
     Ok((i, Local))
 }
 
-#[derive(Clone, Copy, Debug, PartialEq)]
-struct Null;
-
-fn null(i: &str) -> IResult<&str, Null> {
-    let i = tag("null")(i)?.0;
-    Ok((i, Null))
-}
-
-fn undef(i: &str) -> IResult<&str, Null> {
-    let i = tag("undef")(i)?.0;
-    Ok((i, Null))
-}
-
 // `internal`, `fastcc`, `dereferenceable(4)`, etc.
 #[derive(Clone, Copy, Debug, PartialEq)]
 struct Attribute;
diff --git a/src/ir/define.rs b/src/ir/define.rs
index fc192f1..1d51395 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -3,6 +3,8 @@ use nom::{
     bytes::complete::{is_not, tag},
     character::complete::{char, digit1, line_ending, not_line_ending, space1},
     combinator::{map, map_res, opt},
+    error::ErrorKind,
+    error_position,
     multi::{many0, many1, separated_list0, separated_list1},
     sequence::delimited,
     IResult,
@@ -149,6 +151,32 @@ fn asm(i: &str) -> IResult<&str, Stmt> {
 #[derive(Clone, Debug, PartialEq)]
 struct Argument<'a>(Type<'a>);
 
+// NOTE we don't care about the value of an argument, which can be any constant; it extends up to the
+// next argument or the end of the argument list
+fn value(i: &str) -> IResult<&str, &str> {
+    let mut depth = 0;
+    let mut quoted = false;
+    let end = i.find(|c| {
+        match c {
+            '"' => quoted = !quoted,
+            _ if quoted => {}
+            ',' | ')' if depth == 0 => return true,
+            '(' | '[' | '{' | '<' => depth += 1,
+            ')' | ']' | '}' | '>' => depth -= 1,
+            _ => {}
+        }
+
+        false
+    });
+
+    let end = end.unwrap_or(i.len());
+    if end == 0 {
+        Err(nom::Err::Error(error_position!(i, ErrorKind::TakeWhile1)))
+    } else {
+        Ok((&i[end..], &i[..end]))
+    }
+}
+
 fn argument(i: &str) -> IResult<&str, Argument> {
     let (i, ty) = super::type_(i)?;
     let i = space1(i)?.0;
@@ -157,24 +185,7 @@ fn argument(i: &str) -> IResult<&str, Argument> {
         space1(i)
     })(i)?
     .0;
-    let i = alt((
-        map(super::bitcast, drop),
-        map(super::getelementptr, drop),
-        map(super::local, drop),
-        map(super::function, drop),
-        map(super::null, drop),
-        map(super::undef, drop),
-        map(
-            |i| {
-                let i = opt(char('-'))(i)?.0;
-                digit1(i)
-            },
-            drop,
-        ),
-        map(tag("true"), drop),
-        map(tag("false"), drop),
-    ))(i)?
-    .0;
+    let i = value(i)?.0;
     Ok((i, Argument(ty)))
 }
 
-- 
2.43.0


From 2e76c52cf10d402c52682d3b6102c9b0d428b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 37/43] fix: local values with quoted names

---
 src/ir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir.rs b/src/ir.rs
index d7eefee..72f4627 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -165,7 +165,7 @@ struct Local;
 
 fn local(i: &str) -> IResult<&str, Local> {
     let i = char('%')(i)?.0;
-    let i = alt((map(digit1, drop), map(ident, drop)))(i)?.0;
+    let i = alt((map(string, drop), map(digit1, drop), map(ident, drop)))(i)?.0;
     Ok((i, Local))
 }
 
-- 
2.43.0


From ee0e607c5832aefebc234d3f9b5fb0f8ef4991b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:31 +0000
Subject: [PATCH 38/43] fix: functions in other sections than .text

---
 src/main.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c05d902..4b77835 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -28,7 +28,11 @@ use petgraph::{
     Direction, Graph,
 };
 use walkdir::WalkDir;
-use xmas_elf::{sections::SectionData, symbol_table::Entry, ElfFile};
+use xmas_elf::{
+    sections::{SectionData, ShType, SHF_ALLOC},
+    symbol_table::Entry,
+    ElfFile,
+};
 
 use crate::{
     ir::{FnSig, Item, Stmt, Type},
@@ -843,12 +847,28 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 let address = *address as u32;
                 let mut size = *size as u32;
 
+                // functions can be placed in other sections, e.g. to run them from RAM
+                let (stext, text) = if (stext..stext + text.len() as u32).contains(&address) {
+                    (stext, text)
+                } else if let Some(sect) = elf.section_iter().find(|sect| {
+                    sect.flags() & SHF_ALLOC != 0
+                        && matches!(sect.get_type(), Ok(ShType::ProgBits))
+                        && (sect.address()..sect.address() + sect.size())
+                            .contains(&u64::from(address))
+                }) {
+                    (sect.address() as u32, sect.raw_data(&elf))
+                } else {
+                    error!("`{}` is not in any section", canonical_name);
+                    continue;
+                };
+
                 if size == 0 {
                     // try harder at finding out the size of this symbol
                     let mut end = functions
                         .range(u64::from(address) + 1..)
                         .next()
-                        .map_or(stext + text.len() as u32, |(next, _)| *next as u32);
+                        .map_or(u32::MAX, |(next, _)| *next as u32)
+                        .min(stext + text.len() as u32);
 
                     if let Ok(needle) = tags.binary_search_by(|tag| tag.0.cmp(&address)) {
                         let start = tags[needle];
-- 
2.43.0


From 61cbbf42d6f692382c455c6005ffddc0428169ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:00 +0000
Subject: [PATCH 39/43] fix: the stack usage of inline assembly that pushes in
 a loop is unknown

---
 src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 4b77835..6cddb27 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -907,6 +907,16 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     );
                 }
 
+                // LLVM's stack usage analysis ignores inline asm, so its zero is wrong when that
+                // modifies SP; intra-branches keep us from telling by how much
+                if our_stack.is_none()
+                    && modifies_sp
+                    && fns_containing_asm.contains(&canonical_name)
+                    && g[caller].local == Local::Exact(0)
+                {
+                    g[caller].local = Local::Unknown;
+                }
+
                 // check the correctness of `modifies_sp` and `our_stack`
                 // also override LLVM's results when they appear to be wrong
                 if let Local::Exact(ref mut llvm_stack) = g[caller].local {
-- 
2.43.0


From 50a01082e9f3630f6ecf1d2c599e839b8e32881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:26 +0000
Subject: [PATCH 40/43] fix: symbol versions with a single `@`

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6cddb27..b854ab7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -430,10 +430,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         .undefined
         .into_iter()
         .map(|sym| {
-            if let Some(name) = sym.rsplit("@@").nth(1) {
-                name
-            } else {
-                sym
+            // `memcpy@@GLIBC_2.14` or, with newer linkers, `memcpy@GLIBC_2.14`
+            match sym.find('@') {
+                Some(pos) if pos != 0 => &sym[..pos],
+                _ => sym,
             }
         })
         .collect();
-- 
2.43.0


From abfd8f27046376a7771adb024aa09dc04a5d95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:26 +0000
Subject: [PATCH 41/43] fix: functions with the same name are told apart by
 their address

---
 src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b854ab7..0d64e3f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -476,6 +476,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
     let mut addr2name = BTreeMap::new();
+    // names are not unique: local symbols of different object files can have the same name
+    let mut addr2idx = BTreeMap::new();
     for (address, (names, _)) in &functions {
         // filter out tags
         let names = names
@@ -523,6 +525,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
+        addr2idx.insert(*address, idx);
 
         // all the signatures this function is known under
         let mut is_typed = false;
@@ -892,7 +895,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     target_ == Target::Thumbv7m,
                     &tags,
                 );
-                let caller = indices[canonical_name];
+                let caller = addr2idx[&u64::from(address)];
 
                 // sanity check
                 if let Some(stack) = our_stack {
@@ -997,11 +1000,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let name = addr2name
+                    let callee = *addr2idx
                         .get(&addr)
                         .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                    let callee = indices[*name];
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
                         callees_seen.insert(callee);
@@ -1015,11 +1017,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         // intra-function B branches are not function calls
                     } else {
                         // address may be off by one due to the thumb bit being set
-                        let name = addr2name
+                        let callee = *addr2idx
                             .get(&(addr as u64))
                             .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                        let callee = indices[*name];
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
                             callees_seen.insert(callee);
-- 
2.43.0


From e213438789435cc36285a7df44ee102fdc4a5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:26 +0000
Subject: [PATCH 42/43] fix: a start point that names several functions

---
 src/main.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0d64e3f..9f5d888 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1167,8 +1167,23 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let start: &str = start;
         // look up a symbol name or any of its aliases
         let lookup = |name: &str| {
-            let name = aliases.get(name).copied().unwrap_or(name);
-            indices.get(name).cloned()
+            if !aliases.contains_key(name) {
+                return indices.get(name).cloned();
+            }
+
+            let mut hits = functions
+                .iter()
+                .filter(|(_, (names, _))| names.contains(&name))
+                .map(|(address, _)| addr2idx[address]);
+            let hit = hits.next();
+
+            if hits.next().is_some() {
+                // local functions of different object files can have the same name
+                error!("multiple functions are named `{}`", name);
+                None
+            } else {
+                hit
+            }
         };
         let start = lookup(start).or_else(|| {
             let hits = indices
-- 
2.43.0


From 051c4ad77ca5f76724a63d6a9628c72029f11569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:26 +0000
Subject: [PATCH 43/43] fix: rustc invocations without a crate name

---
 src/wrapper.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 01c9803..f377f09 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -39,13 +39,13 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
         }
     }
 
-    if args.crate_name == "compiler_builtins" {
+    if let Some(crate_name @ "compiler_builtins") = args.crate_name.as_deref() {
         rustc.arg("--emit=llvm-ir");
 
         let out_dir = args
             .out_dir
             .ok_or_else(|| anyhow!("missing `--out-dir` argument"))?;
-        let ll_path = format!("{}/{}{}.ll", out_dir, args.crate_name, args.extra_filename);
+        let ll_path = format!("{}/{}{}.ll", out_dir, crate_name, args.extra_filename);
         eprintln!("{}{}", COMPILER_BUILTINS_LL_PATH_MARKER, ll_path);
     }
 
@@ -59,7 +59,8 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
 
 struct RustcArgs {
     extra_filename: String,
-    crate_name: String,
+    // `None` when nothing is compiled, e.g. `rustc -vV`
+    crate_name: Option<String>,
     out_dir: Option<String>,
     extern_crates: Vec<Extern>,
 }
@@ -141,7 +142,7 @@ impl RustcArgs {
 
         Ok(Self {
             extra_filename: extra_filename.unwrap_or_default(),
-            crate_name: crate_name.ok_or_else(|| anyhow!("missing `--crate-name` argument"))?,
+            crate_name,
             out_dir,
             extern_crates,
         })
-- 
2.43.0

