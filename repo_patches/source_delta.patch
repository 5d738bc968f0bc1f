From 112372116a6aa224dfee88a8bc36923a6de98d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 01/22] fix: emit every opcode byte even when it repeats an
 earlier one (pminsb)

pminsb is 66 0F 38 38 /r; the generator dropped the second 38.
---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 6 +-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..36916cf 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,7 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From 90ca3e0c46ecdc50c41d1f89de8bd3762a08a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 02/22] fix: encode jecxz with the address-size prefix

In 64-bit mode E3 without 67h tests RCX, i.e. it is jrcxz.
---
 xten0/src/asm/inst.rs            | 3 ++-
 xten1/asm/inst.llrl              | 3 ++-
 xtencg/src/instr/encoding.rs     | 4 ++--
 xtencg/src/x86.csv               | 2 +-
 xtencg/supported-instructions.md | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 32e8b52..257c5c5 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -9527,7 +9527,8 @@ pub struct Jecxz<Op0>(pub Op0);
 /// jecxz rel8: Jump short if ECX register is 0.
 impl<W: io::Write + ?Sized> WriteInst<W> for Jecxz<i8> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // E3 cb
+        // 67 E3 cb
+        put(w, 0x67)?;
         put(w, 0xE3)?;
         puts(w, self.0.to_le_bytes())?;
         Ok(())
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index b993329..32a8273 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -6783,9 +6783,10 @@
 ; jecxz rel8: Jump short if ECX register is 0.
 (instance WriteInst.Jecxz.I8 (forall W Error) (WriteInst W Error (Jecxz I8)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; E3 cb
+    ; 67 E3 cb
     (with1 (jecxz: (let op0)) inst
       (let ()
+        (write-u8! 103 w)!
         (write-u8! 227 w)!
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 36916cf..db59db7 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -121,7 +121,7 @@ impl Encoding {
     }
 
     pub fn put_prefix(&mut self, prefix: u8) -> Result<(), &'static str> {
-        assert!(matches!(prefix, 0xf2 | 0xf3 | 0x66));
+        assert!(matches!(prefix, 0xf2 | 0xf3 | 0x66 | 0x67));
         if self.prefixes().any(|p| p == prefix) {
             Ok(())
         } else {
@@ -251,7 +251,7 @@ impl Encoding {
 
         for c in components {
             match (c, phase) {
-                (Const(byte @ (0xf2 | 0xf3 | 0x66)), Phase::Prefixes) => {
+                (Const(byte @ (0xf2 | 0xf3 | 0x66 | 0x67)), Phase::Prefixes) => {
                     encoding.put_prefix(byte)?;
                 }
                 // The REX prefix must follow the Legacy prefixes and precede the Opcode.
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index c3cf568..d71e754 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -839,7 +839,7 @@ REX.W+ CF 	IRETQ 	NP		???	???	???			V	NE		iretq		Interrupt return (64-bit operan
 76 cb 	JBE rel8 	D	R	E.CF E.ZF					V	V		jbe		Jump short if below or equal (CF=1 or ZF=1).
 72 cb 	JC rel8 	D	R	E.CF					V	V		jc		Jump short if carry (CF=1).
 E3 cb 	JCXZ rel8 								NE	V				Jump short if CX register is 0.
-E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
+67 E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
 E3 cb 	JRCXZ rel8 	D	R	RCX					V	NE		jrcxz		Jump short if RCX register is 0.
 74 cb 	JE rel8 	D	R	E.ZF					V	V		je		Jump short if equal (ZF=1).
 7F cb 	JG rel8 	D	R	E.ZF E.SF E.OF					V	V		jg		Jump short if greater (ZF=0 and SF=OF).
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index 2ccd8e8..c555448 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -813,7 +813,7 @@
 # jecxz
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| jecxz rel8 | `E3 cb [c=0]` | Jump short if ECX register is 0. |
+| jecxz rel8 | `67 E3 cb [c=0]` | Jump short if ECX register is 0. |
 
 # jg
 | Instruction | Encoding | Description |
-- 
2.43.0


From 99e30d392ef5881636014cfc75c735ab7da2aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 03/22] fix: relocate the displacement, not the immediate, of
 movq label, imm32

---
 xten0/src/asm/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..8e89c9b 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -427,6 +427,10 @@ impl_conditional_jmp!(Jz::jz);
 
 macro_rules! impl_movq_label_o {
     ($o:tt) => {
+        impl_movq_label_o!($o, 0);
+    };
+    // $imm: The size of the immediate following the displacement.
+    ($o:tt, $imm:expr) => {
         /// movq Label O
         impl<W> WriteInst<W> for super::inst::Movq<Label, $o>
         where
@@ -434,7 +438,7 @@ macro_rules! impl_movq_label_o {
         {
             fn write_inst(&self, w: &mut W) -> io::Result<()> {
                 w.movq(memory(Rip + 0i32), self.1)?;
-                w.use_relative(-4, self.0, -4, RelocType::PcRel32);
+                w.use_relative(-4 - $imm, self.0, -4 - $imm, RelocType::PcRel32);
                 Ok(())
             }
         }
@@ -443,7 +447,7 @@ macro_rules! impl_movq_label_o {
 
 impl_movq_label_o!(Gpr64);
 impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+impl_movq_label_o!(i32, 4);
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
-- 
2.43.0


From 08c83321a42e8246ef7cc6c2a4b687e884878253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 04/22] fix: report out-of-range JIT relocations instead of
 truncating them

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From 512adb2f2ce75382c4bcec185f28f55692dfd42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 05/22] fix: make room for the sign of a 64-digit integer in
 llrt_i64_to_string

---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..072d3fe 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // 64 digits in binary and a sign
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From ebc1b32c8606cd6a0adb7f195fc0824b0f84fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 06/22] fix: never express an address-table reference against a
 section or another object's symbol

---
 xten0/src/asm/writer.rs        |  4 ++++
 xten0/src/jit.rs               | 12 ++++++++----
 xten0/src/jit/address_table.rs |  5 +++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 8e89c9b..fd0cd3d 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -121,6 +121,10 @@ impl Writer {
                 // Prefer RelocTarget::Symbol to RelocTarget::Section.
                 target = Some(RelocTarget::Symbol(symbol.clone()));
                 offset = 0;
+            } else if u.ty == RelocType::PcRelToAddressTable32 {
+                // Address table entries exist only for symbols: the addend applies to the entry,
+                // so there is no way to designate the definition by the section + offset.
+                target = None;
             }
 
             if let Some(target) = target {
diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..5388c0d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,10 +237,14 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
-            RelocTarget::Symbol(ref symbol) => self
-                .address_table
-                .prepare(symbol, || self.symbol_table.resolve(symbol))?
-                .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            RelocTarget::Symbol(ref symbol) => match self.local_symbols.get(symbol.as_str()) {
+                // Local symbols must not share the entry with other objects.
+                Some(ptr) => Ok(self.address_table.put(*ptr)?),
+                None => self
+                    .address_table
+                    .prepare(symbol, || self.symbol_table.resolve(symbol))?
+                    .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            },
             RelocTarget::Section(_) => Err(Error::UnsupportedSectionRelocation(reloc.ty)),
         }
     }
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..51caf98 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry that is not associated with any symbol name.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
-- 
2.43.0


From a69d9fd38bcf270f7ef9a25fc1162fc479febc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 07/22] hook: expose the JIT relocation step under
 cfg(llrl_verif)

---
 xten0/src/jit.rs | 29 +++++++++++++++++++++++++++++
 xten0/src/lib.rs |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 5388c0d..f7e1c7d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -250,6 +250,35 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
     }
 }
 
+/// Access to the linking step for the verification harnesses.
+#[cfg(llrl_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Apply one relocation of an object whose sections are loaded at the given addresses,
+    /// with no symbol defined.
+    ///
+    /// # Safety
+    ///
+    /// The relocated field must be inside the sections.
+    pub unsafe fn relocate(
+        [text, data, rodata, bss]: [*mut u8; 4],
+        reloc: &Reloc,
+    ) -> Result<(), Error> {
+        fn none(_: &str) -> *const u8 {
+            ptr::null()
+        }
+        let mut symbol_table = SymbolTable::new(none as SymbolResolverFn);
+        let mut address_table = AddressTable::new(true);
+        Linker::new(
+            &mut symbol_table,
+            &mut address_table,
+            Locator::new(text, data, rodata, bss),
+        )
+        .relocate(reloc)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/xten0/src/lib.rs b/xten0/src/lib.rs
index 7de601b..07f43d5 100644
--- a/xten0/src/lib.rs
+++ b/xten0/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 #[cfg(test)]
 #[macro_use]
 mod binutils;
-- 
2.43.0


From 365fa7b75bb413baffa1ec1a2ca9c721ddfc3436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 08/22] fix: report errors of the final flush when writing an
 object file

---
 xten0/src/elf/adapter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xten0/src/elf/adapter.rs b/xten0/src/elf/adapter.rs
index a412e09..113b54c 100644
--- a/xten0/src/elf/adapter.rs
+++ b/xten0/src/elf/adapter.rs
@@ -2,14 +2,15 @@ use super::format::*;
 use crate::asm::{Binding, LocationSection, Object, RelocTarget};
 use std::collections::HashMap;
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::Path;
 
 pub fn write_relocatable_object(path: &Path, o: Object) -> io::Result<()> {
     let name = path.file_name().unwrap().to_str().unwrap();
     let o = into_relocatable_object(name, o);
     let mut file = io::BufWriter::new(fs::File::create(path)?);
-    o.write(&mut file)
+    o.write(&mut file)?;
+    file.flush()
 }
 
 /// Convert `asm::Object` into a relocatable ELF object.
-- 
2.43.0


From f6af9ff0b6b0a0c03a4a739d00518bfd660f07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 09/22] hook: expose the native code generator's parts under
 cfg(llrl_verif)

---
 llrl0/src/backend/chibi.rs         | 9 +++++++++
 llrl0/src/backend/chibi/codegen.rs | 8 ++++++++
 llrl0/src/lib.rs                   | 2 ++
 3 files changed, 19 insertions(+)

diff --git a/llrl0/src/backend/chibi.rs b/llrl0/src/backend/chibi.rs
index f34e2e3..d5869c0 100644
--- a/llrl0/src/backend/chibi.rs
+++ b/llrl0/src/backend/chibi.rs
@@ -18,6 +18,15 @@ mod executor;
 use context::{Context, FunctionSymbol};
 use executor::Executor;
 
+/// Access to the code generator's parts for the verification harnesses.
+#[cfg(llrl_verif)]
+pub mod verif {
+    pub use super::codegen::verif::*;
+    pub use super::codegen::*;
+    pub use super::context::{Context, FunctionSymbol};
+    pub use super::executor::Executor;
+}
+
 #[derive(Debug)]
 pub struct Backend {
     sender: Sender<Request>,
diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..318931f 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -54,6 +54,14 @@ use reg_assign::{AssignedReg, RegAssign};
 use stack_frame::StackFrame;
 use stack_inst::StackAwareInstWriter;
 
+/// Access to the code generator's parts for the verification harnesses.
+#[cfg(llrl_verif)]
+pub mod verif {
+    pub use super::call_frame::*;
+    pub use super::reg_assign::*;
+    pub use super::stack_frame::*;
+}
+
 pub fn c_main_adapter_object(ctx: &mut Context) -> io::Result<Object> {
     let mut w = Writer::new();
 
diff --git a/llrl0/src/lib.rs b/llrl0/src/lib.rs
index b0b70e8..77c9d04 100644
--- a/llrl0/src/lib.rs
+++ b/llrl0/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub mod formatting;
 pub mod interning;
 pub mod string;
-- 
2.43.0


From 38a5ea4af3a8ed72adf7da748241b1d97d68cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 10/22] fix: make chibi float comparisons false for NaN
 operands

---
 llrl0/src/backend/chibi/codegen.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 318931f..d808ccc 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -980,17 +980,28 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+
+                // All of these are false if either operand is NaN. Since comparison with NaN sets
+                // ZF, PF and CF, only `a` and `ae` (and `e` with PF check) can be used.
+                let (x, y) = match op {
+                    FLt | FLe => (Xmm0, Xmm1),
+                    _ => (Xmm1, Xmm0),
+                };
+                match (op, b_layout.size) {
+                    (FEq, 4) => self.w.ucomiss(x, y)?,
+                    (FEq, 8) => self.w.ucomisd(x, y)?,
+                    (_, 4) => self.w.comiss(x, y)?,
+                    (_, 8) => self.w.comisd(x, y)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
-                    FGt => self.w.seta(Al)?,
-                    FGe => self.w.setae(Al)?,
+                    FEq => {
+                        self.w.sete(Al)?;
+                        self.w.setnp(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
+                    FLt | FGt => self.w.seta(Al)?,
+                    FLe | FGe => self.w.setae(Al)?,
                     _ => panic!(),
                 }
                 Some(Layout::integer(1))
-- 
2.43.0


From 2e07c6f3f37887af29d78d5728490b7d7dd16f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:10 +0000
Subject: [PATCH 11/22] fix: restore the stack depth after a chibi loop whose
 body diverges

---
 llrl0/src/backend/chibi/codegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index d808ccc..5aef0e2 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -592,12 +592,15 @@ impl<'a> FunctionCodegen<'a> {
         self.w.cmpb(Al, 0i8)?;
         self.w.je(cont_label)?;
 
+        let init_depth = self.stack_frame.depth;
+
         if let Some(l) = self.eval(body)? {
             self.discard(&l)?;
             self.w.jmpq(init_label)?;
         }
 
         self.w.define(cont_label, false);
+        self.stack_frame.depth = init_depth;
         Ok(Some(Layout::unit()))
     }
 
-- 
2.43.0


From 94f70b20dac83e9f01dfc3af64ba665acb948fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 12/22] fix: the result of float-ge is a boolean

---
 llrl0/src/lowering/ir/rt.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/llrl0/src/lowering/ir/rt.rs b/llrl0/src/lowering/ir/rt.rs
index 8584886..ace6eb1 100644
--- a/llrl0/src/lowering/ir/rt.rs
+++ b/llrl0/src/lowering/ir/rt.rs
@@ -432,11 +432,9 @@ impl Binary {
             Store => Cow::Owned(Ct::Unit),
             Offset => b.ty()?,
             IShl | IAShr | ILShr | IAnd | IOr | IXor | SAdd | SSub | SMul | SDiv | SRem | UAdd
-            | USub | UMul | UDiv | URem | FGe | FAdd | FSub | FMul | FDiv | FRem | MathPow => {
-                a.ty()?
-            }
+            | USub | UMul | UDiv | URem | FAdd | FSub | FMul | FDiv | FRem | MathPow => a.ty()?,
             PtrEq | PtrLt | PtrLe | PtrGt | PtrGe | IEq | SLt | SLe | SGt | SGe | ULt | ULe
-            | UGt | UGe | FEq | FLt | FLe | FGt | StringEq => Cow::Owned(Ct::BOOL),
+            | UGt | UGe | FEq | FLt | FLe | FGt | FGe | StringEq => Cow::Owned(Ct::BOOL),
             StringConstruct => Cow::Owned(Ct::String),
             StringCmp => Cow::Owned(Ct::S(32)),
             StringConcat => Cow::Owned(Ct::String),
-- 
2.43.0


From 070abd5bbc4c537f471765703440a5324807c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:37 +0000
Subject: [PATCH 13/22] fix: move a struct element to its own registers when
 its class differs from the struct's

---
 llrl0/src/backend/chibi/codegen.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 5aef0e2..b96083d 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -651,7 +651,12 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                // The component can be left as is only if it already occupies the same registers
+                if offset != 0
+                    || a_layout.num_eightbytes() > layout.num_eightbytes()
+                    || !(a_layout.eightbytes().map(|e| e.class))
+                        .eq(layout.eightbytes().map(|e| e.class))
+                {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
-- 
2.43.0


From 9d63cb703c501d252a5092baf2b88123dfd825d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 14/22] fix: test every constant pattern that can be equal to
 the value

---
 llrl0/src/lowering/branch_expander.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/lowering/branch_expander.rs b/llrl0/src/lowering/branch_expander.rs
index e1b9b15..d9b72b5 100644
--- a/llrl0/src/lowering/branch_expander.rs
+++ b/llrl0/src/lowering/branch_expander.rs
@@ -411,11 +411,25 @@ impl PatPart {
     fn excludes(&self, other: &Self) -> bool {
         match (self, other) {
             (Self::NonNullElem(a), Self::Null(b)) | (Self::Null(a), Self::NonNullElem(b)) => a == b,
-            (Self::Const(ca, a), Self::Const(cb, b)) => ca != cb && a == b,
+            (Self::Const(ca, a), Self::Const(cb, b)) => a == b && Self::distinct(ca, cb),
             _ => false,
         }
     }
 
+    /// Whether no value is equal to both of the constants.
+    fn distinct(a: &Const, b: &Const) -> bool {
+        match (a, b) {
+            // The same integer can be written in different ways (e.g. `0` and `-0`).
+            (Const::Integer(Ct::S(size) | Ct::U(size), _, a), Const::Integer(_, _, b)) => {
+                let shift = 64usize.saturating_sub(*size);
+                (a << shift) != (b << shift)
+            }
+            // Different numbers can be rounded to the same floating point number.
+            (Const::Integer(_, _, _), _) | (Const::FPNumber(_, _), _) => false,
+            _ => a != b,
+        }
+    }
+
     fn to_bind_expr(&self, parent: RtId) -> Option<Rt> {
         match self {
             Self::Bind(_, p) => Some(Rt::Var(parent, p.ty().into_owned())),
@@ -446,6 +460,7 @@ impl PatPart {
             }
             Self::Const(c, _) => Some(Rt::binary(
                 match c {
+                    Const::Integer(Ct::F32 | Ct::F64, _, _) => Binary::FEq,
                     Const::Integer(_, _, _) => Binary::IEq,
                     Const::FPNumber(_, _) => Binary::FEq,
                     Const::String(_) => Binary::StringEq,
-- 
2.43.0


From 9b0068cebd6b7bb5533b6778963a6dd9cb28db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 15/22] fix: evaluate each argument of a transparent function
 exactly once

---
 llrl0/src/lowering/normalizer.rs | 25 +++++++++++++++++++------
 llrl0/src/lowering/translator.rs | 13 ++++++++++++-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/llrl0/src/lowering/normalizer.rs b/llrl0/src/lowering/normalizer.rs
index 3cf8d36..5966b04 100644
--- a/llrl0/src/lowering/normalizer.rs
+++ b/llrl0/src/lowering/normalizer.rs
@@ -229,12 +229,25 @@ impl rewriter::Rewriter for ClosureConversion {
     }
 }
 
-fn call_transparent(f: &Function, args: Vec<Rt>, alloc_rt: impl FnMut() -> RtId) -> Rt {
+fn call_transparent(f: &Function, args: Vec<Rt>, mut alloc_rt: impl FnMut() -> RtId) -> Rt {
     assert!(f.env.is_none());
     assert_eq!(f.params.len(), args.len());
-    let params = f.params.iter().map(|param| param.id);
-    let mut rt = f.body.clone();
-    rewriter::replace_rt(&mut rt, params.zip(args).collect());
-    rewriter::realloc_rts(&mut rt, alloc_rt);
-    rt
+    let mut body = f.body.clone();
+    rewriter::realloc_rts(&mut body, &mut alloc_rt);
+    let mut vars = Vec::new();
+    let mut replacements = HashMap::new();
+    for (param, arg) in f.params.iter().zip(args) {
+        let value = match arg {
+            Rt::Var(_, _) | Rt::Const(_) => arg,
+            // The argument is evaluated exactly once even if the parameter is not used exactly once.
+            _ => {
+                let id = alloc_rt();
+                vars.push(RtVar::new(id, param.ty.clone(), arg));
+                Rt::Var(id, param.ty.clone())
+            }
+        };
+        replacements.insert(param.id, value);
+    }
+    rewriter::replace_rt(&mut body, replacements);
+    Rt::let_var(vars, body)
 }
diff --git a/llrl0/src/lowering/translator.rs b/llrl0/src/lowering/translator.rs
index f24ed1c..5c8fd64 100644
--- a/llrl0/src/lowering/translator.rs
+++ b/llrl0/src/lowering/translator.rs
@@ -529,7 +529,7 @@ impl Translate for ast::Expr {
                 Rt::Const(env.translate_const(ty, lit))
             }
             ast::ExprRep::App(ref apply) => {
-                let args = env.translate(&apply.args);
+                let mut args = env.translate(&apply.args);
                 if let ast::ExprRep::Con(con) = apply.callee.rep {
                     if con == ast::ValueCon::SYNTAX && args.len() == 1 {
                         let symbol = set.symbol_of(self.id).unwrap();
@@ -537,6 +537,17 @@ impl Translate for ast::Expr {
                         return Rt::construct_syntax(symbol.loc, body);
                     }
                 }
+                if let ast::ExprRep::Use(ref use_) = apply.callee.rep {
+                    if let ast::Value::BuiltinOp(id) = *use_.get_resolved() {
+                        // The second operand of these is evaluated only if it is needed.
+                        let mut args = args.iter_mut().map(std::mem::take);
+                        match (set.ast(id).unwrap().builtin_name.as_str(), args.len()) {
+                            ("and", 2) => return Rt::and(args.next().unwrap(), args.next().unwrap()),
+                            ("or", 2) => return Rt::or(args.next().unwrap(), args.next().unwrap()),
+                            _ => {}
+                        }
+                    }
+                }
                 let callee = env.translate(&apply.callee);
                 Rt::call(RtCallee::Standard(callee), args)
             }
-- 
2.43.0


From a2a12ab9076c0aa4b4e9948d51bd995efddf51fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 16/22] fix: keep the call of a transparent function that
 returns in the middle

---
 llrl0/src/lowering/normalizer.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/lowering/normalizer.rs b/llrl0/src/lowering/normalizer.rs
index 5966b04..96baa9e 100644
--- a/llrl0/src/lowering/normalizer.rs
+++ b/llrl0/src/lowering/normalizer.rs
@@ -107,7 +107,7 @@ impl<'e, E: Env> rewriter::Rewriter for Normalizer<'e, E> {
             if let Ct::Id(id) = capture.fun;
             if let Some(ProcessingDef { is_normalized, def }) = self.env.get_processing_def(id);
             if let Def::Function(f) = def.as_ref();
-            if f.transparent;
+            if f.transparent && !has_return(&f.body);
             then {
                 let args = std::mem::take(&mut call.args);
                 *rt = call_transparent(f, args, || self.env.alloc_rt());
@@ -229,6 +229,24 @@ impl rewriter::Rewriter for ClosureConversion {
     }
 }
 
+/// Whether the body returns in the middle of it. Such a function cannot be replaced with its body.
+fn has_return(body: &Rt) -> bool {
+    struct Returns;
+
+    impl traverser::Traverser for Returns {
+        type Error = ();
+
+        fn before_rt(&mut self, rt: &Rt) -> Result<bool, ()> {
+            match rt {
+                Rt::Return(_) => Err(()),
+                _ => Ok(true),
+            }
+        }
+    }
+
+    traverser::traverse(body, &mut Returns).is_err()
+}
+
 fn call_transparent(f: &Function, args: Vec<Rt>, mut alloc_rt: impl FnMut() -> RtId) -> Rt {
     assert!(f.env.is_none());
     assert_eq!(f.params.len(), args.len());
-- 
2.43.0


From 9dca4564f4c10e7a45e6800d69e971538b32fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 17/22] hook: feed given IR to the lowering context under
 cfg(llrl_verif)

---
 llrl0/src/lowering.rs                 | 20 ++++++++++++++++++++
 llrl0/src/lowering/branch_expander.rs | 11 +++++++++++
 llrl0/src/lowering/context.rs         | 20 ++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/llrl0/src/lowering.rs b/llrl0/src/lowering.rs
index 9ab31a6..efb5cd9 100644
--- a/llrl0/src/lowering.rs
+++ b/llrl0/src/lowering.rs
@@ -20,6 +20,26 @@ mod translator;
 
 pub use context::Context;
 
+/// Lets the verification harnesses feed hand-made IR to `Context::populate`.
+#[cfg(llrl_verif)]
+pub mod verif {
+    pub use super::branch_expander::verif::*;
+    pub use super::context::verif::*;
+    pub use super::translator::Translate;
+
+    /// IR that is given instead of being translated from a module.
+    #[derive(Debug, Clone)]
+    pub struct Given<D>(pub D);
+
+    impl<D: Clone> Translate for Given<D> {
+        type Dest = D;
+
+        fn translate<'m>(&self, _env: &mut impl super::translator::Env<'m>) -> D {
+            self.0.clone()
+        }
+    }
+}
+
 /// Low-level compiler backend used by the `Lowerizer`.
 pub trait Backend: Send + 'static {
     fn put_def(&mut self, id: ir::CtId, def: Arc<ir::Def>);
diff --git a/llrl0/src/lowering/branch_expander.rs b/llrl0/src/lowering/branch_expander.rs
index d9b72b5..d61f38e 100644
--- a/llrl0/src/lowering/branch_expander.rs
+++ b/llrl0/src/lowering/branch_expander.rs
@@ -4,6 +4,17 @@ use std::borrow::Cow;
 use std::collections::{HashMap, VecDeque};
 use std::rc::Rc;
 
+/// Access to the test elimination for the verification harnesses.
+#[cfg(llrl_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Whether no value is equal to both of the constants.
+    pub fn distinct(a: &Const, b: &Const) -> bool {
+        PatPart::distinct(a, b)
+    }
+}
+
 pub trait Env {
     fn alloc_rt(&mut self) -> RtId;
 }
diff --git a/llrl0/src/lowering/context.rs b/llrl0/src/lowering/context.rs
index b113bc4..dd53ac7 100644
--- a/llrl0/src/lowering/context.rs
+++ b/llrl0/src/lowering/context.rs
@@ -6,6 +6,26 @@ use if_chain::if_chain;
 use std::collections::{hash_map, BTreeSet, HashMap};
 use std::sync::Arc;
 
+/// Access to the definitions of a context for the verification harnesses.
+#[cfg(llrl_verif)]
+pub mod verif {
+    use super::*;
+
+    /// A context that continues the given identifier sequences.
+    pub fn context(ct_id_gen: CtIdGen, rt_id_gen: RtIdGen) -> Context {
+        Context {
+            ct_id_gen,
+            rt_id_gen,
+            ..Context::new()
+        }
+    }
+
+    /// Add a definition as the translator would.
+    pub fn define(ctx: &mut Context, id: CtId, def: Def) {
+        normalizer::Env::define_ct(ctx, id, def)
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct Context {
     ct_id_gen: CtIdGen,
-- 
2.43.0


From be6b89e015b1bcb76b0ed5b536f905620d9f1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 18/22] fix: print trailing marks only after expressions they
 attach to when read

---
 llrl0/src/sexp.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index c6bb394..599258c 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -275,6 +275,28 @@ impl SexpRep {
         Self::List(vec![Sexp::symbol(loc, TRY_EXCLAMATION), s])
     }
 
+    /// Whether trailing marks (`?`, `!` and `{}`) printed after this are read as marks of this.
+    /// Leading marks bind weaker than them, and successive marks are read as a symbol.
+    fn takes_trailing_mark(&self) -> bool {
+        match self {
+            Self::List(ls) => match ls.as_slice() {
+                [Sexp { rep: Self::Symbol(sym), .. }, _] => !matches!(
+                    sym.as_ref(),
+                    QUOTE
+                        | QUASIQUOTE
+                        | UNQUOTE
+                        | UNQUOTE_SPLICING
+                        | LOAD
+                        | CAPTURE
+                        | TRY_QUESTION
+                        | TRY_EXCLAMATION
+                ),
+                _ => true,
+            },
+            _ => true,
+        }
+    }
+
     pub fn annotate(loc: SourceLocation, s: Sexp, mut ss: Vec<Sexp>) -> Self {
         let mut ls = vec![Sexp::symbol(loc, ANNOTATE), s];
         ls.append(&mut ss);
@@ -302,9 +324,9 @@ impl fmt::Display for SexpRep {
                     (UNQUOTE_SPLICING, [s]) => return write!(f, ",@{}", s),
                     (LOAD, [s]) => return write!(f, "~{}", s),
                     (CAPTURE, [s]) => return write!(f, "\\{}", s),
-                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}?", s),
-                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}!", s),
-                    (ANNOTATE, [s, ss @ ..]) => {
+                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) if s.rep.takes_trailing_mark() => return write!(f, "{}?", s),
+                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) if s.rep.takes_trailing_mark() => return write!(f, "{}!", s),
+                    (ANNOTATE, [s, ss @ ..]) if s.rep.takes_trailing_mark() => {
                         write!(f, "{} {{", s)?;
                         for (i, s) in ss.iter().enumerate() {
                             if i == 0 {
-- 
2.43.0


From 81b7f72246a4fd243035fae0c468b761ac5ebfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 19/22] fix: an empty body does not end before it starts

---
 llrl0/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/parser.rs b/llrl0/src/parser.rs
index 396698e..632ffee 100644
--- a/llrl0/src/parser.rs
+++ b/llrl0/src/parser.rs
@@ -100,7 +100,8 @@ where
     ) -> Result<S> {
         let start = self.next_token_start();
         let body = parse_body(self)?;
-        let end = self.latest_token_end();
+        // The body can be empty
+        let end = self.latest_token_end().max(start);
         Ok(produce_with_location(
             self.issue_source_location(start, end),
             body,
-- 
2.43.0


From ec63dceb97f532cf132c3b054c97c2b10561d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 20/22] fix: load a module whose name has a dot from the file
 of that name

---
 llrl0/src/source/loader.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..42c0cc6 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -78,15 +78,15 @@ impl LoadablePackage {
             Self::FileSystem(fs_path) => {
                 let fs_path = {
                     let mut fs_path = fs_path.clone();
-                    match path.module.raw_parts().as_slice() {
-                        [] => fs_path.push("prelude"),
-                        parts => {
-                            for part in parts {
-                                fs_path.push(part);
-                            }
+                    let mut file_name = "prelude";
+                    if let Some((last, dirs)) = path.module.raw_parts().split_last() {
+                        for dir in dirs {
+                            fs_path.push(dir);
                         }
+                        file_name = last;
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
+                    // set_extension would replace the part of the name after a dot.
+                    fs_path.push(format!("{}.{}", file_name, SOURCE_CODE_EXTENSION));
                     fs_path
                 };
 
-- 
2.43.0


From 355898c15b344b26088b420d168ba074066e8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 21/22] fix: print huge floating point numbers so that they can
 be read back

---
 llrl0/src/sexp.rs   | 2 +-
 llrl0/src/string.rs | 9 +++++++++
 llrl0/src/token.rs  | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index 599258c..ddf313b 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -346,7 +346,7 @@ impl fmt::Display for SexpRep {
         match self {
             Self::Integer(true, v) => write!(f, "{}", *v as i64),
             Self::Integer(false, v) => write!(f, "{}", v),
-            Self::FPNumber(v) => write!(f, "{}", v),
+            Self::FPNumber(v) => write!(f, "{}", string::fp_number(v.into_inner())),
             Self::Symbol(s) => write!(f, "{}", s),
             Self::String(s) => write!(f, "\"{}\"", string::escape(s)),
             Self::Char(c) => write!(f, "#\\{}", string::escape(&c.to_string())),
diff --git a/llrl0/src/string.rs b/llrl0/src/string.rs
index f7f35a7..e67d5c9 100644
--- a/llrl0/src/string.rs
+++ b/llrl0/src/string.rs
@@ -22,6 +22,15 @@ pub fn unescape_char(c: char) -> Option<char> {
     })
 }
 
+/// The text of a floating point number. Unlike the plain digits of a huge number, it can be read back.
+pub fn fp_number(value: f64) -> String {
+    let mut s = format!("{:?}", value);
+    if let Some(len) = s.strip_suffix(".0").map(str::len) {
+        s.truncate(len);
+    }
+    s
+}
+
 pub fn escape(input: &str) -> Cow<str> {
     replace(
         input,
diff --git a/llrl0/src/token.rs b/llrl0/src/token.rs
index 4b5afec..3138dea 100644
--- a/llrl0/src/token.rs
+++ b/llrl0/src/token.rs
@@ -76,7 +76,7 @@ impl fmt::Display for TokenRep {
         match self {
             Self::Signed(v) => write!(f, "{}", v),
             Self::Unsigned(v) => write!(f, "{}", v),
-            Self::FPNumber(v) => write!(f, "{}", v),
+            Self::FPNumber(v) => write!(f, "{}", string::fp_number(*v)),
             Self::Symbol(s) => write!(f, "{}", s),
             Self::String(s) => write!(f, "\"{}\"", string::escape(s)),
             Self::Char(c) => write!(f, "#\\{}", string::escape(&c.to_string())),
-- 
2.43.0


From c9059683613a7c1d2b4df8566a8d42c47192e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 22/22] hook: markers for loop contracts in the C runtime
 (nothing without LLRT_VERIF)

---
 rt/rt.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 072d3fe..fbbeea6 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -12,6 +12,15 @@
 #include <sys/time.h>
 #include <sys/wait.h>
 
+// Loop contracts, for verification only
+#ifdef LLRT_VERIF
+#include <llrt_verif.h>
+#else
+#define LLRT_LOOP(name)
+#define LLRT_STEP(name)
+#define LLRT_NEXT(name)
+#endif
+
 static void llrt_init_signal() {
   signal(SIGPIPE, SIG_IGN);
 }
@@ -319,10 +328,12 @@ rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   char buf[65]; // 64 digits in binary and a sign
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
-  while (value != 0) {
+  while (value != 0) LLRT_LOOP(i64_to_string) {
+    LLRT_STEP(i64_to_string)
     buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
+    LLRT_NEXT(i64_to_string)
   }
   if (sign < 0) {
     buf[64 - len] = '-';
@@ -339,10 +350,12 @@ rt_string llrt_u64_to_string(uint8_t radix, uint64_t value) {
   if (value == 0) return zero_string;
   char buf[64];
   size_t len = 0;
-  while (value != 0) {
+  while (value != 0) LLRT_LOOP(u64_to_string) {
+    LLRT_STEP(u64_to_string)
     buf[63 - len] = digit_to_char((uint8_t)(value % radix));
     value /= radix;
     len++;
+    LLRT_NEXT(u64_to_string)
   }
   rt_string ret;
   ret.len = len;
@@ -375,8 +388,9 @@ to_i64 llrt_string_to_i64(uint8_t radix, rt_string s) {
     return (to_i64){.success = 0};
   }
   int64_t value = 0;
-  for (; index < s.len; index++) {
+  for (; index < s.len; index++) LLRT_LOOP(string_to_i64) {
     int8_t digit = char_to_digit(s.ptr[index]);
+    LLRT_STEP(string_to_i64)
     if (digit < 0 || radix <= digit) return (to_i64){.success = 0};
     if (sign < 0) {
       if ((INT64_MIN + digit) / radix > value) return (to_i64){.success = 0};
@@ -385,6 +399,7 @@ to_i64 llrt_string_to_i64(uint8_t radix, rt_string s) {
       if ((INT64_MAX - digit) / radix < value) return (to_i64){.success = 0};
       value = value * radix + digit;
     }
+    LLRT_NEXT(string_to_i64)
   }
   return (to_i64){.success = 1, .value = value};
 }
@@ -392,13 +407,15 @@ to_i64 llrt_string_to_i64(uint8_t radix, rt_string s) {
 to_u64 llrt_string_to_u64(uint8_t radix, rt_string s) {
   if (s.len == 0) return (to_u64){.success = 0};
   uint64_t value = 0;
-  for (size_t index = 0; index < s.len; index++) {
+  for (size_t index = 0; index < s.len; index++) LLRT_LOOP(string_to_u64) {
     int8_t digit = char_to_digit(s.ptr[index]);
+    LLRT_STEP(string_to_u64)
     if (digit < 0 || radix <= digit)
       return (to_u64){.success = 0};
     if ((UINT64_MAX - digit) / radix < value)
       return (to_u64){.success = 0};
     value = value * radix + digit;
+    LLRT_NEXT(string_to_u64)
   }
   return (to_u64){.success = 1, .value = value};
 }
-- 
2.43.0

