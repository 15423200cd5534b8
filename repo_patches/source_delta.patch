From 18de74704246e35540fadb0414a984a72b8fd32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 01/20] fix: keep pending exceptions of equal priority distinct
 and order interrupts by level

---
 m68000/src/exception.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..5b6e446 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -114,6 +114,15 @@ impl Exception {
     pub const fn is_interrupt(&self) -> bool {
         is_interrupt(self.vector)
     }
+
+    /// The interrupt level of this exception, or 0 if it is not an interrupt.
+    const fn interrupt_level(&self) -> u8 {
+        if self.is_interrupt() {
+            self.vector & 7
+        } else {
+            0
+        }
+    }
 }
 
 impl From<u8> for Exception {
@@ -137,12 +146,11 @@ impl PartialOrd for Exception {
 
 impl Ord for Exception {
     /// For BTreeSet, compare by actual priority and not by the value itself, so higher number means less priority.
+    /// Exceptions of the same priority are ordered by interrupt level then by vector, so that they remain distinct.
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.priority.cmp(&other.priority) {
-            Ordering::Greater => Ordering::Less,
-            Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
-        }
+        other.priority.cmp(&self.priority)
+            .then(self.interrupt_level().cmp(&other.interrupt_level()))
+            .then(self.vector.cmp(&other.vector))
     }
 }
 
-- 
2.43.0


From 960a3be80eabd44b741ce59141760298899a9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 02/20] fix: give on-chip interrupts the interrupt priority

---
 m68000/src/exception.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 5b6e446..b5c80e2 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip interrupt.
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
-- 
2.43.0


From 392a29a410f4bac5919b5bac080f430f61e774a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 03/20] fix: do not take two interrupts of the same level
 together

---
 m68000/src/exception.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index b5c80e2..ddbc23e 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -179,21 +179,23 @@ impl<CPU: CpuDetails> M68000<CPU> {
         CPU::VECTOR_RESET
     }
 
+    /// Returns true if the given exception is an interrupt that is inhibited by the interrupt mask.
+    ///
+    /// If the interrupt is lower or equal to the interrupt mask, then it is not processed.
+    /// MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+    const fn is_inhibited(&self, ex: &Exception) -> bool {
+        ex.is_interrupt() && ex.interrupt_level() != 7 && ex.interrupt_level() <= self.regs.sr.interrupt_mask
+    }
+
     /// Attempts to process all the pending exceptions
     pub(super) fn process_pending_exceptions<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         // TODO: use extract_if when stable.
         let mut to_process = Vec::new();
 
         for ex in &self.exceptions {
-            if ex.is_interrupt() {
-                // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
-                // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
-                let level = ex.vector & 0x7;
-                if level != 7 && level <= self.regs.sr.interrupt_mask {
-                    continue;
-                }
+            if !self.is_inhibited(ex) {
+                to_process.push(*ex);
             }
-            to_process.push(*ex);
         }
 
         for ex in &to_process {
@@ -212,6 +214,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
                 return self.reset(memory);
             }
 
+            if self.is_inhibited(exception) { // By an interrupt of the same level that has just been processed.
+                self.exceptions.insert(*exception);
+                continue;
+            }
+
             total += match self.process_exception(memory, exception.vector) {
                 Ok(cycles) => cycles,
                 Err(e) => {
-- 
2.43.0


From 2b3f688beb4c3cd50c509f50a18cd8a9286a3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 04/20] fix: only an interrupt that is not masked resumes a
 stopped CPU, even when already pending

---
 m68000/src/exception.rs   | 16 +++++++++++++---
 m68000/src/interpreter.rs |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index ddbc23e..56e7fff 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -158,15 +158,25 @@ impl Ord for Exception {
 impl<CPU: CpuDetails> M68000<CPU> {
     /// Requests the CPU to process the given exception.
     pub fn exception(&mut self, ex: Exception) {
-        if ex.vector == Vector::ResetSspPc as u8 ||
-           ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+        if self.is_resuming(&ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the given exception makes the CPU leave the stopped state.
+    const fn is_resuming(&self, ex: &Exception) -> bool {
+        ex.vector == Vector::ResetSspPc as u8 ||
+        ex.vector == Vector::Trace as u8 ||
+        ex.is_interrupt() && !self.is_inhibited(ex)
+    }
+
+    /// Returns true if a pending exception prevents the CPU from stopping.
+    pub(super) fn has_resuming_exception(&self) -> bool {
+        self.exceptions.iter().any(|ex| self.is_resuming(ex))
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..7eb1d2f 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -2018,7 +2018,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         self.check_supervisor()?;
 
         self.regs.sr = imm.into();
-        self.stop = true;
+        self.stop = !self.has_resuming_exception();
         Ok(CPU::STOP)
     }
 
-- 
2.43.0


From da90ad017fd484317900804b2cb17017d7b32a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 05/20] fix: EXT.W sets N and Z from the word result

---
 m68000/src/interpreter.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 7eb1d2f..66d7fd5 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,14 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
             self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
+            self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From 3b8efba0fd7a08812b27e1e295ed95959db1ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 06/20] fix: JSR computes its effective address before pushing
 the return address

---
 m68000/src/interpreter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 66d7fd5..bd0e537 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1065,8 +1065,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        let addr = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = addr;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From d41e1de8db7f9fab4a226080ebd31e6fe54ce79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 07/20] fix: ORI and EORI to CCR only change the condition
 codes

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index bd0e537..a438dd0 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1703,7 +1703,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From fca70f76397321027e554701c095a3a0f2efa0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 08/20] fix: DIVS does not overflow when the quotient is -32768

---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index a438dd0..f4093ec 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From e7f6c8b8ce1535977737ae494b5e25ba7dcb8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 09/20] fix: DIVS and DIVU leave the carry alone when their
 operand can't be read

---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index f4093ec..fbf5f13 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -846,8 +846,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         let mut ea = EffectiveAddress::new(am, Some(Size::Word));
 
-        self.regs.sr.c = false;
         let src = self.get_word(memory, &mut ea, &mut exec_time)? as i16 as i32;
+        self.regs.sr.c = false;
         if src == 0 {
             self.regs.sr.z = true; // From hardware tests.
             return Err(Vector::ZeroDivide as u8);
@@ -878,8 +878,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         let mut ea = EffectiveAddress::new(am, Some(Size::Word));
 
-        self.regs.sr.c = false;
         let src = self.get_word(memory, &mut ea, &mut exec_time)? as u32;
+        self.regs.sr.c = false;
         if src == 0 {
             self.regs.sr.z = true; // From hardware tests.
             return Err(Vector::ZeroDivide as u8);
-- 
2.43.0


From 7a39d8ba046cfc27867f9fbba27a7e3bee5f3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 10/20] fix: CHK sets N when it traps

---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index fbf5f13..5570079 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From f89192fda6e43aed5302bfb1adfc48d43962acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 11/20] fix: LINK A7 stores the decremented stack pointer

---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 5570079..6d52efc 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1101,7 +1101,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_link<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8, disp: i16) -> InterpreterResult {
-        self.push_long(memory, self.regs.a(reg))?;
+        // The stack pointer is decremented first, it is the value stored by LINK A7.
+        let addr = self.ariwpr(7, Size::Long).even()?;
+        memory.set_long(addr, self.regs.a(reg)).ok_or(ACCESS_ERROR)?;
         self.regs.a_mut(reg).0 = self.regs.sp();
         *self.regs.sp_mut() += disp as u32;
 
-- 
2.43.0


From c2785894940f873c2b1777980fd4b255454a8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 12/20] fix: the disassembling interpreter advances PC like the
 plain one when the opcode can't be read

---
 m68000/src/interpreter_disassembler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..28420c0 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -14,9 +14,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     /// If an error occurs when reading the next instruction, the Err variant contains the exception vector.
     fn get_next_instruction<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> Result<Instruction, u8> {
         let mut iter = self.iter_from_pc(memory);
-        let instruction = Instruction::from_memory(&mut iter)?;
+        let instruction = Instruction::from_memory(&mut iter);
         self.regs.pc.0 = iter.next_addr;
-        Ok(instruction)
+        instruction
     }
 
     /// Runs the interpreter loop once and disassembles the next instruction if any.
-- 
2.43.0


From 44bd69d44ba69333374df660f8f2e4b69fa753ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 13/20] fix: refuse word accesses that are partly outside of a
 byte slice

---
 m68000/src/memory_access.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..306b648 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -240,8 +240,8 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr.saturating_add(1) < self.len() {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
@@ -259,9 +259,9 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr.saturating_add(1) < self.len() {
             self[addr] = (data >> 8) as u8;
-            self[addr.wrapping_add(1)] = data as u8;
+            self[addr + 1] = data as u8;
             Some(())
         } else {
             None
@@ -283,8 +283,8 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr.saturating_add(1) < self.len() {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
-- 
2.43.0


From ce907b5bd9128a9ae6e9ceb7d0b4ebfae60e31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 14/20] fix: count the long operand time of read-modify-write
 instructions once

---
 m68000/src/memory_access.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 306b648..6ae9c88 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -162,10 +162,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // The long operand time is already counted if the operand has been read first.
+                if ea.address.is_none() {
+                    *exec_time += 4;
+                }
                 let addr = self.get_effective_address(ea, exec_time).even()?;
-                let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
-                r
+                memory.set_long(addr, value).ok_or(ACCESS_ERROR)
             },
         }
     }
-- 
2.43.0


From 3d6414ea8f59306d5b6808575d414d5615385580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 15/20] fix: write nothing in an empty disassembly buffer

---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..3e74b74 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From d536dbd38cb60bc081f7aa260111d68269397dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 16/20] fix: illegal, unimplemented and privileged instructions
 save their own address

---
 m68000/src/exception.rs                |  9 +++++++++
 m68000/src/interpreter_disassembler.rs |  9 +++++++--
 m68000/src/interpreter_fast.rs         | 10 ++++++++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 56e7fff..fa0aaed 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -99,6 +99,15 @@ const fn is_interrupt(vector: u8) -> bool {
     vector >= Vector::Level1OnChipInterrupt as u8 && vector <= Vector::Level7OnChipInterrupt as u8
 }
 
+/// Returns true if the PC saved by the given exception is the address of the instruction that caused it,
+/// and not the address of the next instruction (MC68000UM 6.3.6 and 6.3.7).
+pub(super) const fn is_restarting(vector: u8) -> bool {
+    vector == Vector::IllegalInstruction as u8 ||
+    vector == Vector::PrivilegeViolation as u8 ||
+    vector == Vector::LineAEmulator as u8 ||
+    vector == Vector::LineFEmulator as u8
+}
+
 /// M68000 exception, with a vector number and a priority.
 ///
 /// This struct implements `From<u8>` and `From<Vector>`, to create an
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 28420c0..2e1537e 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{is_restarting, Exception, Vector};
 use crate::instruction::Instruction;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -72,7 +72,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if is_restarting(e) {
+                    self.regs.pc.0 = instruction.pc;
+                }
+                Some(e)
+            },
         };
 
         (instruction.pc, dis, cycle_count, exception)
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..c9c1335 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -3,7 +3,7 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use crate::{CpuDetails, M68000, MemoryAccess};
-use crate::exception::{Exception, Vector};
+use crate::exception::{is_restarting, Exception, Vector};
 use crate::instruction::*;
 use crate::interpreter::InterpreterResult;
 use crate::isa::Isa;
@@ -102,6 +102,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
             cycle_count += self.process_pending_exceptions(memory);
         }
 
+        let instruction_pc = self.regs.pc;
         let opcode = match self.get_next_word(memory) {
             Ok(op) => op,
             Err(e) => return (cycle_count, Some(e)),
@@ -119,7 +120,12 @@ impl<CPU: CpuDetails> M68000<CPU> {
                     None
                 }
             },
-            Err(e) => Some(e),
+            Err(e) => {
+                if is_restarting(e) {
+                    self.regs.pc = instruction_pc;
+                }
+                Some(e)
+            },
         };
 
         (cycle_count, exception)
-- 
2.43.0


From 4d221baf19a7382dc8dd1439fda98a2cd00c54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 17/20] fix: ADDA, CMPA, SUBA, MOVE and MOVEA refuse invalid
 source registers in the assembler

---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..78e2efe 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -561,6 +563,7 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
     size_effective_address_effective_address(size, dst, src)
 }
@@ -568,6 +571,7 @@ pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16>
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0


From 68f5e5da661ea16c3b424a835b14fd227bd77176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:22 +0000
Subject: [PATCH 18/20] fix: MOVEM to (An)+ and from -(An) are illegal
 instructions

---
 m68000/src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 6dd3de851c06007d022cbf5bd215bdbc84cac3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 19/20] fix: the C interface header includes stddef.h, which
 declares size_t

---
 include/m68000/m68000-ffi.h  | 1 +
 m68000-ffi/cbindgen-ffi.toml | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
diff --git a/m68000-ffi/cbindgen-ffi.toml b/m68000-ffi/cbindgen-ffi.toml
index 50d55dd..d600165 100644
--- a/m68000-ffi/cbindgen-ffi.toml
+++ b/m68000-ffi/cbindgen-ffi.toml
@@ -2,7 +2,7 @@ language = "C"
 include_guard = "M68000_FFI_H"
 
 include_version = false
-sys_includes = ["stdint.h"]
+sys_includes = ["stddef.h", "stdint.h"]
 includes = ["m68000.h"]
 no_includes = true
 cpp_compat = true
-- 
2.43.0


From 9f540bfb8758f4e2ad60ab5d6651f7a142dbc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:44 +0000
Subject: [PATCH 20/20] fix: the decoder generator leaves MOVEM to (An)+ and
 from -(An) illegal

---
 m68000/src/bin/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..044e7d2 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,9 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2__4_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_3__5_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
@@ -439,6 +439,8 @@ const V0_15: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
 const V1_2: [u8; 2] = [1, 2];
 const V1_3: [u8; 3] = [1, 2, 3];
 const V2_3: [u8; 2] = [2, 3];
+const V2__4_6: [u8; 4] = [2, 4, 5, 6];
+const V2_3__5_6: [u8; 4] = [2, 3, 5, 6];
 const V2__5_6: [u8; 3] = [2, 5, 6];
 const V2_6: [u8; 5] = [2, 3, 4, 5, 6];
 const V2_15: [u8; 14] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
-- 
2.43.0

