From a10e68961f9a8ce7c9a61d2a862521f55d1326b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 01/20] fix: do not lose exceptions of equal priority

The set of pending exceptions is ordered by priority alone, so two different
vectors of the same priority were considered equal and the second one was
dropped. Break ties by interrupt level then vector, and give the on-chip
interrupts of the SCC68070 the interrupt priority.
---
 m68000/src/exception.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index f66be65..975f973 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -83,6 +83,7 @@ const fn get_vector_priority(vector: u8) -> u8 {
         2 => 1, // Access Error.
         9 => 2, // Trace.
         24..=31 => 3, // Interrupt.
+        57..=63 => 3, // On-chip interrupt (SCC68070).
         64..=255 => 3, // User Interrupt.
         4 => 4, // Illegal.
         8 => 5, // Privilege.
@@ -114,6 +115,11 @@ impl Exception {
     pub const fn is_interrupt(&self) -> bool {
         is_interrupt(self.vector)
     }
+
+    /// Returns the level of the interrupt, or 0 if this exception is not an interrupt.
+    const fn interrupt_level(&self) -> u8 {
+        if self.is_interrupt() { self.vector & 7 } else { 0 }
+    }
 }
 
 impl From<u8> for Exception {
@@ -137,12 +143,13 @@ impl PartialOrd for Exception {
 
 impl Ord for Exception {
     /// For BTreeSet, compare by actual priority and not by the value itself, so higher number means less priority.
+    ///
+    /// Exceptions of the same priority are ordered by interrupt level then by vector, so that only two identical
+    /// vectors are equal and distinct exceptions are never merged in a set.
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.priority.cmp(&other.priority) {
-            Ordering::Greater => Ordering::Less,
-            Ordering::Less => Ordering::Greater,
-            Ordering::Equal => Ordering::Equal,
-        }
+        other.priority.cmp(&self.priority)
+            .then(self.interrupt_level().cmp(&other.interrupt_level()))
+            .then(self.vector.cmp(&other.vector))
     }
 }
 
-- 
2.43.0


From c63ea3dc3908cc6b572a7dda04db3b023c64ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 02/20] fix: wake up from STOP exactly when an interrupt is
 admitted

A masked interrupt took the CPU out of the stopped state without being
processed, and an interrupt pending when STOP lowered the mask, or an
interrupt on a user vector, never did.
---
 m68000/src/exception.rs   | 32 +++++++++++++++++++++-----------
 m68000/src/interpreter.rs |  3 ++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 975f973..8393940 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -155,16 +155,32 @@ impl Ord for Exception {
 
 impl<CPU: CpuDetails> M68000<CPU> {
     /// Requests the CPU to process the given exception.
+    ///
+    /// A stopped CPU is woken up by the reset, trace and interrupt exceptions, unless the interrupt is masked.
     pub fn exception(&mut self, ex: Exception) {
-        if ex.vector == Vector::ResetSspPc as u8 ||
-           ex.vector == Vector::Trace as u8 ||
-           ex.is_interrupt() {
+        if self.wakes_up(ex) {
             self.stop = false;
         }
 
         self.exceptions.insert(ex);
     }
 
+    /// Returns true if the given exception takes the CPU out of the stopped state.
+    pub(super) fn wakes_up(&self, ex: Exception) -> bool {
+        ex.vector == Vector::ResetSspPc as u8 ||
+        ex.vector == Vector::Trace as u8 ||
+        ex.vector >= Vector::UserInterrupt as u8 ||
+        ex.is_interrupt() && !self.is_masked(ex)
+    }
+
+    /// Returns true if the given exception is an interrupt inhibited by the interrupt priority mask.
+    fn is_masked(&self, ex: Exception) -> bool {
+        // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
+        // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
+        let level = ex.vector & 0x7;
+        ex.is_interrupt() && level != 7 && level <= self.regs.sr.interrupt_mask
+    }
+
     /// Resets the CPU by fetching the reset vectors.
     fn reset<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
         self.regs.ssp.0 = memory.get_long(0).expect("An exception occured when reading initial SSP.");
@@ -183,15 +199,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut to_process = Vec::new();
 
         for ex in &self.exceptions {
-            if ex.is_interrupt() {
-                // If the interrupt is lower or equal to the interrupt mask, then it is not processed.
-                // MC68000UM 6.3.2 Level 7 interrupts cannot be inhibited by the interrupt priority mask.
-                let level = ex.vector & 0x7;
-                if level != 7 && level <= self.regs.sr.interrupt_mask {
-                    continue;
-                }
+            if !self.is_masked(*ex) {
+                to_process.push(*ex);
             }
-            to_process.push(*ex);
         }
 
         for ex in &to_process {
diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 77a498b..d8abd52 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -2018,7 +2018,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
         self.check_supervisor()?;
 
         self.regs.sr = imm.into();
-        self.stop = true;
+        // An exception already pending that the new mask no longer inhibits wakes up the CPU immediately.
+        self.stop = !self.exceptions.iter().any(|ex| self.wakes_up(*ex));
         Ok(CPU::STOP)
     }
 
-- 
2.43.0


From bc5f7f571e317e979eec65813fc1a4bf4ccf4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 03/20] fix: leave the program counter of both interpreters
 alike after a fetch error

When the opcode fetch raised an access error, the disassembling interpreter
did not advance the program counter like the other one does, so that the
exception frames differed.
---
 m68000/src/interpreter_disassembler.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index 865a433..daedbe7 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -13,8 +13,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
     ///
     /// If an error occurs when reading the next instruction, the Err variant contains the exception vector.
     fn get_next_instruction<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> Result<Instruction, u8> {
+        let pc = self.regs.pc.0;
+        self.current_opcode = self.get_next_word(memory)?;
+
         let mut iter = self.iter_from_pc(memory);
-        let instruction = Instruction::from_memory(&mut iter)?;
+        let instruction = Instruction::from_opcode(self.current_opcode, pc, &mut iter);
         self.regs.pc.0 = iter.next_addr;
         Ok(instruction)
     }
@@ -58,7 +61,6 @@ impl<CPU: CpuDetails> M68000<CPU> {
             Err(e) => return (0, String::from(""), cycle_count, Some(e)),
         };
 
-        self.current_opcode = instruction.opcode;
         let isa = Isa::from(instruction.opcode);
 
         let dis = instruction.disassemble();
-- 
2.43.0


From 03a20ea6bcd3698cabde5714ae19e7a38f5e482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 04/20] fix: raise the access error of an extension word
 instead of panicking

A bus error on an instruction's extension word aborted the host program.
Keep the error in the memory iterator while the operands are decoded, and
return it like any other access error.
---
 m68000/src/addressing_modes.rs         | 22 +++++-----
 m68000/src/instruction.rs              | 27 +++++++-----
 m68000/src/interpreter_disassembler.rs |  1 +
 m68000/src/interpreter_fast.rs         | 61 ++++++++++++++++++++++++++
 m68000/src/memory_access.rs            | 33 +++++++++++++-
 5 files changed, 121 insertions(+), 23 deletions(-)

diff --git a/m68000/src/addressing_modes.rs b/m68000/src/addressing_modes.rs
index be9799d..c947def 100644
--- a/m68000/src/addressing_modes.rs
+++ b/m68000/src/addressing_modes.rs
@@ -45,6 +45,8 @@ pub enum AddressingMode {
 
 impl AddressingMode {
     /// New addressing mode from memory iterator.
+    ///
+    /// If an extension word cannot be read, [MemoryIter::check] returns the error.
     pub fn from_memory<M: MemoryAccess + ?Sized>(mode: u16, reg: u8, size: Option<Size>, memory: &mut MemoryIter<M>) -> Self {
         match mode {
             0 => Self::Drd(reg),
@@ -52,24 +54,24 @@ impl AddressingMode {
             2 => Self::Ari(reg),
             3 => Self::Ariwpo(reg),
             4 => Self::Ariwpr(reg),
-            5 => Self::Ariwd(reg, memory.next().unwrap().expect("An Access Error occured in Ariwd.") as i16),
-            6 => Self::Ariwi8(reg, BriefExtensionWord(memory.next().unwrap().expect("An Access Error occured in Ariwi8."))),
+            5 => Self::Ariwd(reg, memory.extension_word() as i16),
+            6 => Self::Ariwi8(reg, BriefExtensionWord(memory.extension_word())),
             7 => match reg {
-                0 => Self::AbsShort(memory.next().unwrap().expect("An Access Error occured in AbsShort.")),
+                0 => Self::AbsShort(memory.extension_word()),
                 1 => {
-                    let high = (memory.next().unwrap().expect("An Access Error occured in AbsLong high.") as u32) << 16;
-                    let low = memory.next().unwrap().expect("An Access Error occured in AbsLong low.") as u32;
+                    let high = (memory.extension_word() as u32) << 16;
+                    let low = memory.extension_word() as u32;
                     Self::AbsLong(high | low)
                 },
-                2 => Self::Pciwd(memory.next_addr, memory.next().unwrap().expect("An Access Error occured in Pciwd.") as i16),
-                3 => Self::Pciwi8(memory.next_addr, BriefExtensionWord(memory.next().unwrap().expect("An Access Error occured in Pciwi8."))),
+                2 => Self::Pciwd(memory.next_addr, memory.extension_word() as i16),
+                3 => Self::Pciwi8(memory.next_addr, BriefExtensionWord(memory.extension_word())),
                 4 => {
                     if size.unwrap().is_long() {
-                        let high = (memory.next().unwrap().expect("An Access Error occured in Immediate high.") as u32) << 16;
-                        let low = memory.next().unwrap().expect("An Access Error occured in Immediate low.") as u32;
+                        let high = (memory.extension_word() as u32) << 16;
+                        let low = memory.extension_word() as u32;
                         Self::Immediate(high | low)
                     } else {
-                        let low = memory.next().unwrap().expect("An Access Error occured in Immediate.");
+                        let low = memory.extension_word();
                         Self::Immediate(low as u32)
                     }
                 },
diff --git a/m68000/src/instruction.rs b/m68000/src/instruction.rs
index 5b826f5..ff3ff70 100644
--- a/m68000/src/instruction.rs
+++ b/m68000/src/instruction.rs
@@ -30,6 +30,7 @@ impl Instruction {
     /// Decodes the given opcode.
     ///
     /// Returns the decoded instruction.
+    /// If an extension word cannot be read, [MemoryIter::check] returns the error.
     pub fn from_opcode<M: MemoryAccess + ?Sized>(opcode: u16, pc: u32, memory: &mut MemoryIter<M>) -> Self {
         let isa = Isa::from(opcode);
         let decode = IsaEntry::<M>::ISA_ENTRY[isa as usize].decode;
@@ -49,7 +50,9 @@ impl Instruction {
     pub fn from_memory<M: MemoryAccess + ?Sized>(memory: &mut MemoryIter<M>) -> Result<Self, u8> {
         let pc = memory.next_addr;
         let opcode = memory.next().unwrap()?;
-        Ok(Self::from_opcode(opcode, pc, memory))
+        let instruction = Self::from_opcode(opcode, pc, memory);
+        memory.check()?;
+        Ok(instruction)
     }
 
     /// Disassemble the intruction.
@@ -718,7 +721,7 @@ impl Operands {
 
 /// ANDI/EORI/ORI CCR/SR, STOP
 pub fn immediate<M: MemoryAccess + ?Sized>(memory: &mut MemoryIter<M>) -> u16 {
-    memory.next().unwrap().expect("Access error occured when fetching immediate operand.")
+    memory.extension_word()
 }
 
 /// ADDI, ANDI, CMPI, EORI, ORI, SUBI
@@ -726,11 +729,11 @@ pub fn size_effective_address_immediate<M: MemoryAccess + ?Sized>(opcode: u16, m
     let size = Size::from(bits(opcode, 6, 7));
 
     let imm = if size.is_long() {
-        let high = memory.next().unwrap().expect("Access error occured when fetching immediate operand high.");
-        let low = memory.next().unwrap().expect("Access error occured when fetching immediate operand low.");
+        let high = memory.extension_word();
+        let low = memory.extension_word();
         (high as u32) << 16 | low as u32
     } else {
-        memory.next().unwrap().expect("Access error occured when fetching immediate operand.") as u32
+        memory.extension_word() as u32
     };
 
     let eareg = bits(opcode, 0, 2) as u8;
@@ -745,7 +748,7 @@ pub fn effective_address_count<M: MemoryAccess + ?Sized>(opcode: u16, memory: &m
     let count = if bit(opcode, 8) { // dynamic bit number
         bits(opcode, 9, 11) as u8
     } else { // Static bit number
-        memory.next().unwrap().expect("Access error occured when fetching count operand.") as u8
+        memory.extension_word() as u8
     };
 
     let eareg = bits(opcode, 0, 2) as u8;
@@ -807,7 +810,7 @@ pub fn register_direction_size_register_displacement<M: MemoryAccess + ?Sized>(o
     let dir = if bit(opcode, 7) { Direction::RegisterToMemory } else { Direction::MemoryToRegister };
     let size = if bit(opcode, 6) { Size::Long } else { Size::Word };
     let areg = bits(opcode, 0, 2) as u8;
-    let disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
+    let disp = memory.extension_word() as i16;
 
     (dreg, dir, size, areg, disp)
 }
@@ -871,7 +874,7 @@ pub fn vector(opcode: u16) -> u8 {
 /// LINK
 pub fn register_displacement<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIter<M>) -> (u8, i16) {
     let reg = bits(opcode, 0, 2) as u8;
-    let disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
+    let disp = memory.extension_word() as i16;
 
     (reg, disp)
 }
@@ -891,7 +894,7 @@ pub fn direction_register(opcode: u16) -> (Direction, u8) {
 
 /// MOVEM
 pub fn direction_size_effective_address_list<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIter<M>) -> (Direction, Size, AddressingMode, u16) {
-    let list = memory.next().unwrap().expect("Access error occured when fetching list operand.");
+    let list = memory.extension_word();
     let dir = if bit(opcode, 10) { Direction::MemoryToRegister } else { Direction::RegisterToMemory };
     let size = Size::from_bit(bit(opcode, 6));
 
@@ -927,7 +930,7 @@ pub fn condition_effective_address<M: MemoryAccess + ?Sized>(opcode: u16, memory
 
 /// DBcc
 pub fn condition_register_displacement<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIter<M>) -> (u8, u8, i16) {
-    let disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
+    let disp = memory.extension_word() as i16;
     let condition = bits(opcode, 8, 11) as u8;
     let reg = bits(opcode, 0, 2) as u8;
     (condition, reg, disp)
@@ -937,7 +940,7 @@ pub fn condition_register_displacement<M: MemoryAccess + ?Sized>(opcode: u16, me
 pub fn displacement<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIter<M>) -> i16 {
     let mut disp = opcode as i8 as i16;
     if disp == 0 {
-        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
+        disp = memory.extension_word() as i16;
     }
     disp
 }
@@ -946,7 +949,7 @@ pub fn displacement<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIt
 pub fn condition_displacement<M: MemoryAccess + ?Sized>(opcode: u16, memory: &mut MemoryIter<M>) -> (u8, i16) {
     let mut disp = opcode as i8 as i16;
     if disp == 0 {
-        disp = memory.next().unwrap().expect("Access error occured when fetching displacement operand.") as i16;
+        disp = memory.extension_word() as i16;
     }
     let condition = bits(opcode, 8, 11) as u8;
     (condition, disp)
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index daedbe7..fca9648 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -19,6 +19,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let instruction = Instruction::from_opcode(self.current_opcode, pc, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         Ok(instruction)
     }
 
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index a8f0672..2c1c1d2 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -138,6 +138,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, dir, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_add(memory, reg, dir, size, am)
     }
 
@@ -145,6 +146,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, size, am) = register_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_adda(memory, reg, size, am)
     }
 
@@ -152,6 +154,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_addi(memory, size, am, imm)
     }
 
@@ -159,6 +162,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (imm, size, am) = data_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_addq(memory, imm, size, am)
     }
 
@@ -171,6 +175,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, dir, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_and(memory, reg, dir, size, am)
     }
 
@@ -178,6 +183,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_andi(memory, size, am, imm)
     }
 
@@ -185,6 +191,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_andiccr(imm)
     }
 
@@ -192,6 +199,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_andisr(imm)
     }
 
@@ -199,6 +207,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (dir, am) = direction_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_asm(memory, dir, am)
     }
 
@@ -212,6 +221,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (condition, displacement) = condition_displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bcc(pc, condition, displacement)
     }
 
@@ -219,6 +229,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (am, count) = effective_address_count(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bchg(memory, am, count)
     }
 
@@ -226,6 +237,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (am, count) = effective_address_count(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bclr(memory, am, count)
     }
 
@@ -234,6 +246,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let disp = displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bra(pc, disp)
     }
 
@@ -241,6 +254,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (am, count) = effective_address_count(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bset(memory, am, count)
     }
 
@@ -249,6 +263,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let disp = displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_bsr(memory, pc, disp)
     }
 
@@ -256,6 +271,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (am, count) = effective_address_count(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_btst(memory, am, count)
     }
 
@@ -265,6 +281,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_chk(memory, reg, am)
     }
 
@@ -272,6 +289,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am) = size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_clr(memory, size, am)
     }
 
@@ -279,6 +297,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, _, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_cmp(memory, reg, size, am)
     }
 
@@ -286,6 +305,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, size, am) = register_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_cmpa(memory, reg, size, am)
     }
 
@@ -293,6 +313,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_cmpi(memory, size, am, imm)
     }
 
@@ -306,6 +327,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (cc, reg, disp) = condition_register_displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_dbcc(pc, cc, reg, disp)
     }
 
@@ -315,6 +337,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_divs(memory, reg, am)
     }
 
@@ -324,6 +347,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_divu(memory, reg, am)
     }
 
@@ -331,6 +355,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, _, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_eor(memory, reg, size, am)
     }
 
@@ -338,6 +363,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_eori(memory, size, am, imm)
     }
 
@@ -345,6 +371,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_eoriccr(imm)
     }
 
@@ -352,6 +379,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_eorisr(imm)
     }
 
@@ -373,6 +401,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_jmp(am)
     }
 
@@ -380,6 +409,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_jsr(memory, am)
     }
 
@@ -387,6 +417,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_lea(reg, am)
     }
 
@@ -394,6 +425,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, disp) = register_displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_link(memory, reg, disp)
     }
 
@@ -401,6 +433,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (dir, am) = direction_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_lsm(memory, dir, am)
     }
 
@@ -413,6 +446,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, amdst, amsrc) = size_effective_address_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_move(memory, size, amdst, amsrc)
     }
 
@@ -420,6 +454,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, reg, am) = size_register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_movea(memory, size, reg, am)
     }
 
@@ -427,6 +462,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_moveccr(memory, am)
     }
 
@@ -434,6 +470,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_movefsr(memory, am)
     }
 
@@ -441,6 +478,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_movesr(memory, am)
     }
 
@@ -453,6 +491,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (dir, size, am, list) = direction_size_effective_address_list(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_movem(memory, dir, size, am, list)
     }
 
@@ -460,6 +499,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (data, dir, size, addr, disp) = register_direction_size_register_displacement(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_movep(memory, data, dir, size, addr, disp)
     }
 
@@ -472,6 +512,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_muls(memory, reg, am)
     }
 
@@ -479,6 +520,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, am) = register_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_mulu(memory, reg, am)
     }
 
@@ -486,6 +528,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_nbcd(memory, am)
     }
 
@@ -493,6 +536,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am) = size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_neg(memory, size, am)
     }
 
@@ -500,6 +544,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am) = size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_negx(memory, size, am)
     }
 
@@ -511,6 +556,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am) = size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_not(memory, size, am)
     }
 
@@ -518,6 +564,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, dir, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_or(memory, reg, dir, size, am)
     }
 
@@ -525,6 +572,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_ori(memory, size, am, imm)
     }
 
@@ -532,6 +580,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_oriccr(imm)
     }
 
@@ -539,6 +588,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_orisr(imm)
     }
 
@@ -546,6 +596,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_pea(memory, am)
     }
 
@@ -557,6 +608,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (dir, am) = direction_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_rom(memory, dir, am)
     }
 
@@ -569,6 +621,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (dir, am) = direction_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_roxm(memory, dir, am)
     }
 
@@ -598,6 +651,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (cc, am) = condition_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_scc(memory, cc, am)
     }
 
@@ -605,6 +659,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let imm = immediate(&mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_stop(imm)
     }
 
@@ -612,6 +667,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, dir, size, am) = register_direction_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_sub(memory, reg, dir, size, am)
     }
 
@@ -619,6 +675,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (reg, size, am) = register_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_suba(memory, reg, size, am)
     }
 
@@ -626,6 +683,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am, imm) = size_effective_address_immediate(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_subi(memory, size, am, imm)
     }
 
@@ -633,6 +691,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (imm, size, am) = data_size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_subq(memory, imm, size, am)
     }
 
@@ -650,6 +709,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let am = effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_tas(memory, am)
     }
 
@@ -666,6 +726,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut iter = self.iter_from_pc(memory);
         let (size, am) = size_effective_address(self.current_opcode, &mut iter);
         self.regs.pc.0 = iter.next_addr;
+        iter.check()?;
         self.execute_tst(memory, size, am)
     }
 
diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 28cf90f..0d1489e 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -66,7 +66,7 @@ pub trait MemoryAccess {
     /// Returns a [MemoryIter] starting at the given address that will be used to decode instructions.
     #[must_use]
     fn iter_u16(&mut self, addr: u32) -> MemoryIter<'_, Self> {
-        MemoryIter { memory: self, next_addr: addr }
+        MemoryIter { memory: self, next_addr: addr, error: None }
     }
 
     /// Called when the CPU executes a RESET instruction.
@@ -79,6 +79,37 @@ pub struct MemoryIter<'a, M: MemoryAccess + ?Sized> {
     pub memory: &'a mut M,
     /// The address of the next value to be returned.
     pub next_addr: u32,
+    /// The vector of the first error that occured when reading an extension word.
+    error: Option<u8>,
+}
+
+impl<M: MemoryAccess + ?Sized> MemoryIter<'_, M> {
+    /// Returns the next extension word of the instruction being decoded.
+    ///
+    /// If it cannot be read, the error is kept to be returned by [Self::check], 0 is returned
+    /// and the memory is not accessed anymore by this method.
+    pub(super) fn extension_word(&mut self) -> u16 {
+        if self.error.is_some() {
+            return 0;
+        }
+
+        match self.next() {
+            Some(Ok(word)) => word,
+            Some(Err(vector)) => {
+                self.error = Some(vector);
+                0
+            },
+            None => 0,
+        }
+    }
+
+    /// Returns Err with the exception vector if an extension word could not be read.
+    pub fn check(&self) -> SetResult {
+        match self.error {
+            Some(vector) => Err(vector),
+            None => Ok(()),
+        }
+    }
 }
 
 impl<M: MemoryAccess + ?Sized> Iterator for MemoryIter<'_, M> {
-- 
2.43.0


From abc7f26370c6c329da8ee7891715d2126e10bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 05/20] fix: keep the system byte in EORI and ORI to CCR

Both used the whole extension word, which let user programs change the
supervisor bit, the trace bit and the interrupt mask.
---
 m68000/src/interpreter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index d8abd52..1f8eaa9 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -992,7 +992,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_eoriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr ^= imm;
+        self.regs.sr ^= imm & CCR_MASK;
 
         Ok(CPU::EORICCR)
     }
@@ -1700,7 +1700,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_oriccr(&mut self, imm: u16) -> InterpreterResult {
-        self.regs.sr |= imm;
+        self.regs.sr |= imm & CCR_MASK;
 
         Ok(CPU::ORICCR)
     }
-- 
2.43.0


From 1a85ac8da5350f0f49c6c3fba71d81ebb2792a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 06/20] fix: set the flags of EXT.W from the word result

N and Z were computed from the whole register.
---
 m68000/src/interpreter.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 1f8eaa9..36323a1 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1025,12 +1025,15 @@ impl<CPU: CpuDetails> M68000<CPU> {
         if mode == 0b010 {
             let d = self.regs.d[reg as usize].0 as i8 as u16;
             self.regs.d_word(reg, d);
+            self.regs.sr.n = d & SIGN_BIT_16 != 0;
+            self.regs.sr.z = d == 0;
         } else {
-            self.regs.d[reg as usize].0 = self.regs.d[reg as usize].0 as i16 as u32;
+            let d = self.regs.d[reg as usize].0 as i16 as u32;
+            self.regs.d[reg as usize].0 = d;
+            self.regs.sr.n = d & SIGN_BIT_32 != 0;
+            self.regs.sr.z = d == 0;
         }
 
-        self.regs.sr.n = self.regs.d[reg as usize].0 & SIGN_BIT_32 != 0;
-        self.regs.sr.z = self.regs.d[reg as usize].0 == 0;
         self.regs.sr.v = false;
         self.regs.sr.c = false;
 
-- 
2.43.0


From fded26386f92308ebc2bd3068ff7b3b76d797b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 07/20] fix: accept the quotient -32768 in DIVS

It fits in a signed word and is not an overflow.
---
 m68000/src/interpreter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 36323a1..cf266a3 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -860,7 +860,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
 
         self.regs.sr.n = (quot as i16) < 0; // Undefined on overflow.
         self.regs.sr.z = quot as i16 == 0; // Undefined on overflow.
-        self.regs.sr.v = quot <= i16::MIN as i32 || quot > i16::MAX as i32;
+        self.regs.sr.v = quot < i16::MIN as i32 || quot > i16::MAX as i32;
 
         if !self.regs.sr.v {
             self.regs.d[reg as usize].0 = (rem as u16 as u32) << 16 | (quot as u16 as u32);
-- 
2.43.0


From 66257be0dc1a7e4bcc785e8651e77e3f3b33719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 08/20] fix: set the N flag when CHK traps

N is set if the register is negative and cleared if it exceeds the bound.
---
 m68000/src/interpreter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index cf266a3..3b76828 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -687,6 +687,7 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let data = self.regs.d[reg as usize].0 as i16;
 
         if data < 0 || data > src {
+            self.regs.sr.n = data < 0;
             Err(Vector::ChkInstruction as u8)
         } else {
             Ok(CPU::CHK_NO_TRAP + exec_time)
-- 
2.43.0


From 26cfaffbecc1c774951c83292c4f2d2c58e357bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 09/20] fix: push the decremented stack pointer in LINK A7

---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index 3b76828..e3e42ba 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1101,7 +1101,9 @@ impl<CPU: CpuDetails> M68000<CPU> {
     }
 
     pub(super) fn execute_link<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M, reg: u8, disp: i16) -> InterpreterResult {
-        self.push_long(memory, self.regs.a(reg))?;
+        // The stack pointer is decremented before the register is pushed, which matters for LINK A7.
+        let value = if reg == 7 { self.regs.sp().wrapping_sub(4) } else { self.regs.a(reg) };
+        self.push_long(memory, value)?;
         self.regs.a_mut(reg).0 = self.regs.sp();
         *self.regs.sp_mut() += disp as u32;
 
-- 
2.43.0


From dd5439dc6ca77f2a41785b2f97778960156393bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 10/20] fix: calculate the address of JSR before pushing the
 return address

JSR (A7) and its variants jumped relative to the decremented stack pointer.
---
 m68000/src/interpreter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index e3e42ba..ccef955 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1067,8 +1067,10 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut ea = EffectiveAddress::new(am, None);
 
         let mut exec_time = 0;
+        // Calculated before pushing the return address because it may depend on the stack pointer.
+        let addr = self.get_effective_address(&mut ea, &mut exec_time);
         self.push_long(memory, self.regs.pc.0)?;
-        self.regs.pc.0 = self.get_effective_address(&mut ea, &mut exec_time);
+        self.regs.pc.0 = addr;
 
         Ok(match am {
             AddressingMode::Ari(_) => CPU::JSR_ARI,
-- 
2.43.0


From f52d87e39b3030cd96198feeb1e50f0119da4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 11/20] fix: accept an empty buffer in the C disassembler
 functions

With len equal to 0, the subtraction underflowed and wrote out of bounds.
---
 m68000-ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m68000-ffi/src/lib.rs b/m68000-ffi/src/lib.rs
index 9b6ade9..3e74b74 100644
--- a/m68000-ffi/src/lib.rs
+++ b/m68000-ffi/src/lib.rs
@@ -345,7 +345,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
@@ -375,7 +375,7 @@ macro_rules! cinterface {
 
                     if cstring.len() <= len {
                         str.copy_from_nonoverlapping(raw_cstring, cstring.len());
-                    } else {
+                    } else if len > 0 {
                         str.copy_from_nonoverlapping(raw_cstring, len - 1);
                         *str.add(len - 1) = 0;
                     }
-- 
2.43.0


From 97e06c94ce588413b1ebcbacb8d98eb388e6c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 12/20] fix: refuse a word that extends past the end of a byte
 slice

Accessing a word at the last byte of a slice panicked.
---
 m68000/src/memory_access.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 0d1489e..44aa7dc 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -271,8 +271,8 @@ impl MemoryAccess for [u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr < self.len().saturating_sub(1) {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
@@ -290,9 +290,9 @@ impl MemoryAccess for [u8] {
 
     fn set_word(&mut self, addr: u32, data: u16) -> Option<()> {
         let addr = addr as usize;
-        if addr < self.len() {
+        if addr < self.len().saturating_sub(1) {
             self[addr] = (data >> 8) as u8;
-            self[addr.wrapping_add(1)] = data as u8;
+            self[addr + 1] = data as u8;
             Some(())
         } else {
             None
@@ -314,8 +314,8 @@ impl MemoryAccess for &[u8] {
 
     fn get_word(&mut self, addr: u32) -> Option<u16> {
         let addr = addr as usize;
-        if addr < self.len() {
-            Some((self[addr] as u16) << 8 | self[addr.wrapping_add(1)] as u16)
+        if addr < self.len().saturating_sub(1) {
+            Some((self[addr] as u16) << 8 | self[addr + 1] as u16)
         } else {
             None
         }
-- 
2.43.0


From 0be77412f4362873f9ea73f0fb7bca82d970a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 13/20] fix: leave the register alone when MOVEP fails to read
 memory

The destination was cleared before the access error.
---
 m68000/src/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/m68000/src/interpreter.rs b/m68000/src/interpreter.rs
index ccef955..b5ddfec 100644
--- a/m68000/src/interpreter.rs
+++ b/m68000/src/interpreter.rs
@@ -1413,18 +1413,21 @@ impl<CPU: CpuDetails> M68000<CPU> {
                 CPU::MOVEP_RTM_WORD
             })
         } else {
-            if size.is_word() { self.regs.d[data as usize] &= 0xFFFF_0000 } else { self.regs.d[data as usize].0 = 0 }
+            // The register is written once all the bytes have been read, to be left unchanged by an access error.
+            let mut value = 0;
 
             while shift >= 0 {
                 let d = memory.get_byte(addr.0).ok_or(ACCESS_ERROR)? as u32;
-                self.regs.d[data as usize] |= d << shift;
+                value |= d << shift;
                 shift -= 8;
                 addr += 2;
             }
 
             Ok(if size.is_long() {
+                self.regs.d[data as usize].0 = value;
                 CPU::MOVEP_MTR_LONG
             } else {
+                self.regs.d_word(data, value as u16);
                 CPU::MOVEP_MTR_WORD
             })
         }
-- 
2.43.0


From a6cb3bc9fb48a99263e78fa519bab157508b4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 14/20] fix: report all the cycles executed by cycle() before
 STOP

If the instructions executed took more than the requested number of cycles,
the extra ones were lost.
---
 m68000/src/interpreter_fast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 2c1c1d2..2e09e9c 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -22,7 +22,8 @@ impl<CPU: CpuDetails> M68000<CPU> {
             total += self.interpreter(memory);
 
             if self.stop {
-                return cycles;
+                // The remaining cycles are spent in the stopped state.
+                return total.max(cycles);
             }
         }
 
-- 
2.43.0


From db86fe04a3ff9218985f597f3d076731d36c20b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 15/20] fix: decode MOVEM with an invalid addressing mode as
 illegal

MOVEM to (An)+ and from -(An) do not exist and must raise the illegal
instruction exception instead of being executed.
---
 m68000/src/bin/decoder.rs | 6 ++++--
 m68000/src/decoder.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/m68000/src/bin/decoder.rs b/m68000/src/bin/decoder.rs
index 21c1bbc..1883661 100644
--- a/m68000/src/bin/decoder.rs
+++ b/m68000/src/bin/decoder.rs
@@ -219,9 +219,9 @@ fn generate_isa(opcodes: &mut [Isa; 65536]) {
 
     generate_opcodes(opcodes, "010011100110abbb", &[&V0_1, &V0_7], Isa::Moveusp);
 
-    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010010001bcccddd", &[&V0_1, &V2__4_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010010001b111ddd", &[&V0_1, &V0_1], Isa::Movem);
-    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_6, &V0_7], Isa::Movem);
+    generate_opcodes(opcodes, "010011001bcccddd", &[&V0_1, &V2_3__5_6, &V0_7], Isa::Movem);
     generate_opcodes(opcodes, "010011001b111ddd", &[&V0_1, &V0_3], Isa::Movem);
 
     generate_opcodes(opcodes, "0000aaabbb001ccc", &[&V0_7, &V4_7, &V0_7], Isa::Movep);
@@ -439,6 +439,8 @@ const V0_15: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
 const V1_2: [u8; 2] = [1, 2];
 const V1_3: [u8; 3] = [1, 2, 3];
 const V2_3: [u8; 2] = [2, 3];
+const V2_3__5_6: [u8; 4] = [2, 3, 5, 6];
+const V2__4_6: [u8; 4] = [2, 4, 5, 6];
 const V2__5_6: [u8; 3] = [2, 5, 6];
 const V2_6: [u8; 5] = [2, 3, 4, 5, 6];
 const V2_15: [u8; 14] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
diff --git a/m68000/src/decoder.rs b/m68000/src/decoder.rs
index 2b086a7..8d052b3 100644
--- a/m68000/src/decoder.rs
+++ b/m68000/src/decoder.rs
@@ -1178,11 +1178,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea,
     Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Pea, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Ext, Ext, Ext, Ext, Ext, Ext, Ext, Ext, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
@@ -1243,11 +1243,11 @@ pub static DECODER: [Isa; 65536] = [
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
-    Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
+    Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem,
     Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Movem, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
     Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown, Unknown,
-- 
2.43.0


From 53728fccc924cf95b15ca4d13082d80c7a275e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 16/20] fix: process an exception raised by exception
 processing immediately

When the stack or the vector of an exception could not be accessed, one
instruction of the interrupted program was executed before the resulting
exception was processed. Also stop on every kind of double fault, as it was
already done for an access error during access error processing, because no
progress can be made.
---
 m68000/src/exception.rs                | 30 ++++++++++++++------------
 m68000/src/interpreter_disassembler.rs |  6 +++++-
 m68000/src/interpreter_fast.rs         |  6 +++++-
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/m68000/src/exception.rs b/m68000/src/exception.rs
index 8393940..9318839 100644
--- a/m68000/src/exception.rs
+++ b/m68000/src/exception.rs
@@ -193,8 +193,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
         CPU::VECTOR_RESET
     }
 
-    /// Attempts to process all the pending exceptions
-    pub(super) fn process_pending_exceptions<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> usize {
+    /// Attempts to process all the pending exceptions.
+    ///
+    /// Returns the execution time, and false if the processing of an exception raised another one,
+    /// which has to be processed before the next instruction is executed.
+    pub(super) fn process_pending_exceptions<M: MemoryAccess + ?Sized>(&mut self, memory: &mut M) -> (usize, bool) {
         // TODO: use extract_if when stable.
         let mut to_process = Vec::new();
 
@@ -211,38 +214,37 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let exceptions: BTreeSet<_> = to_process.into_iter().collect();
 
         let mut total = 0;
+        let mut completed = true;
 
         // Iterates from the lowest priority to highest, so that when all exceptions have been processed,
         // the one with the highest priority will be the one treated first.
         for exception in exceptions.iter() {
             if exception.vector == Vector::ResetSspPc as u8 {
                 self.exceptions.clear(); // The reset vector clears all the pending interrupts.
-                return self.reset(memory);
+                return (self.reset(memory), true);
             }
 
             total += match self.process_exception(memory, exception.vector) {
                 Ok(cycles) => cycles,
                 Err(e) => {
-                    if e == ACCESS_ERROR {
-                        if exception.vector == ACCESS_ERROR {
-                            panic!("An access error occured during access error processing (at {:#X})", self.regs.pc);
-                        }
-
-                        if exception.is_interrupt() {
-                            self.exception(Exception::from(Vector::SpuriousInterrupt));
-                        } else {
-                            self.exception(Exception::from(e));
-                        }
+                    // MC68000UM 6.3.9.1 and 6.3.10: a double fault halts the processor.
+                    if exception.vector == ACCESS_ERROR || exception.vector == ADDRESS_ERROR {
+                        panic!("An access or address error occured during access or address error processing (at {:#X})", self.regs.pc);
+                    }
+
+                    if e == ACCESS_ERROR && exception.is_interrupt() {
+                        self.exception(Exception::from(Vector::SpuriousInterrupt));
                     } else {
                         self.exception(Exception::from(e));
                     }
 
+                    completed = false;
                     0
                 },
             };
         }
 
-        total
+        (total, completed)
     }
 
     /// Effectively processes an exception.
diff --git a/m68000/src/interpreter_disassembler.rs b/m68000/src/interpreter_disassembler.rs
index fca9648..b6e69b1 100644
--- a/m68000/src/interpreter_disassembler.rs
+++ b/m68000/src/interpreter_disassembler.rs
@@ -54,7 +54,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut cycle_count = 0;
 
         if !self.exceptions.is_empty() {
-            cycle_count += self.process_pending_exceptions(memory);
+            let (cycles, completed) = self.process_pending_exceptions(memory);
+            cycle_count += cycles;
+            if !completed {
+                return (0, String::from(""), cycle_count, None);
+            }
         }
 
         let instruction = match self.get_next_instruction(memory) {
diff --git a/m68000/src/interpreter_fast.rs b/m68000/src/interpreter_fast.rs
index 2e09e9c..9affbe5 100644
--- a/m68000/src/interpreter_fast.rs
+++ b/m68000/src/interpreter_fast.rs
@@ -100,7 +100,11 @@ impl<CPU: CpuDetails> M68000<CPU> {
         let mut cycle_count = 0;
 
         if !self.exceptions.is_empty() {
-            cycle_count += self.process_pending_exceptions(memory);
+            let (cycles, completed) = self.process_pending_exceptions(memory);
+            cycle_count += cycles;
+            if !completed {
+                return (cycle_count, None);
+            }
         }
 
         let opcode = match self.get_next_word(memory) {
-- 
2.43.0


From 59c0dbdf3f4e7ba7ecf7dd79da926b7cac44910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 17/20] fix: count the long effective address time once

Instructions that read then write a long in memory took 4 cycles too many.
---
 m68000/src/memory_access.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 44aa7dc..89d86ce 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -193,9 +193,13 @@ impl<CPU: CpuDetails> M68000<CPU> {
             AddressingMode::Drd(reg) => { self.regs.d[reg as usize].0 = value; Ok(()) },
             AddressingMode::Ard(reg) => { self.regs.a_mut(reg).0 = value; Ok(()) },
             _ => {
+                // The long address calculation time is already counted if the operand has been read before.
+                let calculated = ea.address.is_some();
                 let addr = self.get_effective_address(ea, exec_time).even()?;
                 let r = memory.set_long(addr, value).ok_or(ACCESS_ERROR);
-                *exec_time += 4;
+                if !calculated {
+                    *exec_time += 4;
+                }
                 r
             },
         }
-- 
2.43.0


From 9e5005e0d3da330d4898ca9fd2b2dd22bf6a7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 18/20] fix: forget a decoding error once it has been reported

After a refused extension word, every later instruction decoded with the same
iterator that has extension words failed, without being read.
---
 m68000/src/memory_access.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/m68000/src/memory_access.rs b/m68000/src/memory_access.rs
index 89d86ce..1f81f5b 100644
--- a/m68000/src/memory_access.rs
+++ b/m68000/src/memory_access.rs
@@ -104,8 +104,10 @@ impl<M: MemoryAccess + ?Sized> MemoryIter<'_, M> {
     }
 
     /// Returns Err with the exception vector if an extension word could not be read.
-    pub fn check(&self) -> SetResult {
-        match self.error {
+    ///
+    /// The error is forgotten, so that the next instruction can be decoded with the same iterator.
+    pub fn check(&mut self) -> SetResult {
+        match self.error.take() {
             Some(vector) => Err(vector),
             None => Ok(()),
         }
-- 
2.43.0


From e0fcd50c8dccb6bb3bc78cc32fceb0c8e406c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 19/20] fix: include stddef.h for size_t in the C header

m68000-ffi.h uses size_t but only included stdint.h, which need not define it:
a program including this header first, like the example of CINTERFACE.md, did
not compile.
---
 include/m68000/m68000-ffi.h  | 1 +
 m68000-ffi/cbindgen-ffi.toml | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/m68000/m68000-ffi.h b/include/m68000/m68000-ffi.h
index 6c6396d..82396c4 100644
--- a/include/m68000/m68000-ffi.h
+++ b/include/m68000/m68000-ffi.h
@@ -1,6 +1,7 @@
 #ifndef M68000_FFI_H
 #define M68000_FFI_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include "m68000.h"
 
diff --git a/m68000-ffi/cbindgen-ffi.toml b/m68000-ffi/cbindgen-ffi.toml
index 50d55dd..d600165 100644
--- a/m68000-ffi/cbindgen-ffi.toml
+++ b/m68000-ffi/cbindgen-ffi.toml
@@ -2,7 +2,7 @@ language = "C"
 include_guard = "M68000_FFI_H"
 
 include_version = false
-sys_includes = ["stdint.h"]
+sys_includes = ["stddef.h", "stdint.h"]
 includes = ["m68000.h"]
 no_includes = true
 cpp_compat = true
-- 
2.43.0


From 1aaa2c6ef9a68d6a2fa9b3db5e71113a2b580017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 20/20] fix: refuse source registers above 7 in ADDA, CMPA,
 MOVE, MOVEA and SUBA

The assembler returned the encoding of another addressing mode or another
register for them, where it panics for every other bad parameter.
---
 m68000/src/assembler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/m68000/src/assembler.rs b/m68000/src/assembler.rs
index 99aed82..78e2efe 100644
--- a/m68000/src/assembler.rs
+++ b/m68000/src/assembler.rs
@@ -302,6 +302,7 @@ pub fn add(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn adda(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "ADDA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1101, reg, size, am)
 }
 
@@ -448,6 +449,7 @@ pub fn cmp(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
 pub fn cmpa(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "CMPA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1011, reg, size, am)
 }
 
@@ -561,6 +563,7 @@ pub fn lsr(count_reg: u16, dir: Direction, size: Size, reg_shift: bool, reg: u16
 
 pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16> {
     assert!(dst.verify(&MODES_0234567, &[0, 1]), "Invalid destination addressing mode.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     assert!(!(src.is_ard() && size.is_byte()), "Byte size cannot be used with Address Register Direct source operand.");
     size_effective_address_effective_address(size, dst, src)
 }
@@ -568,6 +571,7 @@ pub fn r#move(size: Size, dst: AddressingMode, src: AddressingMode) -> Vec<u16>
 pub fn movea(size: Size, dst_reg: u8, src: AddressingMode) -> Vec<u16> {
     assert!(dst_reg <= 7, "Invalid address register.");
     assert!(size != Size::Byte, "MOVEA cannot be byte sized.");
+    assert!(src.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid source addressing mode.");
     size_effective_address_effective_address(size, AddressingMode::Ard(dst_reg), src)
 }
 
@@ -801,6 +805,7 @@ pub fn sub(reg: u8, dir: Direction, size: Size, am: AddressingMode) -> Vec<u16>
 pub fn suba(reg: u8, size: Size, am: AddressingMode) -> Vec<u16> {
     assert!(reg <= 7, "Invalid register.");
     assert!(!size.is_byte(), "SUBA cannot be byte sized.");
+    assert!(am.verify(&MODES_01234567, &[0, 1, 2, 3, 4]), "Invalid addressing mode.");
     register_size_effective_address(0b1001, reg, size, am)
 }
 
-- 
2.43.0

