From 57bdce728f8bc1735837f3155c3876134ff57113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 01/21] fix: ISA simulator reports accesses outside memory as
 errors instead of crashing

Instruction fetches at or across the end of memory, loads and stores that
touch the last bytes, and stack accesses outside memory panicked, as did the
computation of an address whose signed sum overflows.
---
 sim/src/isa.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..b5ed2b1 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -231,7 +231,19 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     #[inline]
     fn checked_add_pc(pc: usize, n: usize) -> anyhow::Result<usize> {
-        pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
+        // the whole instruction must be inside the memory
+        pc.checked_add(n)
+            .filter(|nex_pc| *nex_pc <= BIN_SIZE)
+            .ok_or(anyhow::anyhow!("pc overflow"))
+    }
+
+    /// Check that the 8 bytes starting at `addr` are inside the memory.
+    #[inline]
+    fn checked_addr(addr: u64) -> anyhow::Result<usize> {
+        if addr > BIN_SIZE as u64 - 8 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
     }
 
     #[inline]
@@ -257,6 +269,9 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     loop {
         n_insts += 1;
+        if pc >= BIN_SIZE {
+            anyhow::bail!("invalid instruction address: {:#x}", pc);
+        }
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
 
@@ -348,10 +363,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = checked_addr(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -365,10 +377,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = checked_addr(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -402,6 +411,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 }
             }
             inst_code::CALL => {
+                let nex_pc = checked_add_pc(pc, 9)?;
                 check_ifun_zero(inst_code::CALL, ifun)?;
 
                 let v = get_u64(&bin[(pc + 1)..(pc + 9)]);
@@ -409,10 +419,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let new_rsp = checked_addr(*rsp)?;
+                put_u64(&mut bin[new_rsp..(new_rsp + 8)], nex_pc as u64);
 
                 v as usize
             }
@@ -421,7 +429,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let old_rsp = checked_addr(*rsp)?;
+                let v = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -437,7 +446,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = checked_addr(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -450,7 +459,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = checked_addr(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From 5b5a5e04bc04363723e3d455751fffb6d9a1cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 02/21] fix: instruction memory reports an error exactly when
 the instruction leaves memory

The error output was never reset, so one bad speculative fetch made every later
fetch fail; instructions shorter than ten bytes were refused near the end of
memory; and the bounds check overflowed for addresses near 2^64.
---
 sim/src/architectures/hardware_pipe.rs | 23 ++++++++++++++---------
 sim/src/architectures/hardware_seq.rs  | 23 ++++++++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..bdfec5c 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -34,15 +34,20 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        // bytes outside the memory are read as 0
+        let byte = |i: u64| pc.checked_add(i).and_then(|addr| binary.get(addr as usize).copied()).unwrap_or(0);
+        *icode = byte(0) >> 4;
+        *ifun = byte(0) & 0xf;
+        *align = std::array::from_fn(|i| byte(i as u64 + 1));
+
+        // only the bytes that belong to the instruction have to be in the memory
+        let len: u64 = match *icode {
+            inst_code::CMOVX | inst_code::OPQ | inst_code::PUSHQ | inst_code::POPQ => 2,
+            inst_code::JX | inst_code::CALL => 9,
+            inst_code::IRMOVQ | inst_code::RMMOVQ | inst_code::MRMOVQ | inst_code::IOPQ => 10,
+            _ => 1,
+        };
+        *error = pc >= MEM_SIZE as u64 || pc + len > MEM_SIZE as u64;
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..13a427f 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -31,15 +31,20 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        // bytes outside the memory are read as 0
+        let byte = |i: u64| pc.checked_add(i).and_then(|addr| binary.get(addr as usize).copied()).unwrap_or(0);
+        *icode = byte(0) >> 4;
+        *ifun = byte(0) & 0xf;
+        *align = std::array::from_fn(|i| byte(i as u64 + 1));
+
+        // only the bytes that belong to the instruction have to be in the memory
+        let len: u64 = match *icode {
+            inst_code::CMOVX | inst_code::OPQ | inst_code::PUSHQ | inst_code::POPQ => 2,
+            inst_code::JX | inst_code::CALL => 9,
+            inst_code::IRMOVQ | inst_code::RMMOVQ | inst_code::MRMOVQ | inst_code::IOPQ => 10,
+            _ => 1,
+        };
+        *error = pc >= MEM_SIZE as u64 || pc + len > MEM_SIZE as u64;
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
-- 
2.43.0


From 2aef885977d4fa21c2000cc3710d5f995b7c232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 03/21] fix: PC increment wraps around instead of overflowing
 on speculated addresses near 2^64

---
 sim/src/architectures/hardware_pipe.rs | 6 +++---
 sim/src/architectures/hardware_seq.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index bdfec5c..8c1d2eb 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -85,9 +85,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 13a427f..bbfc30f 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -82,9 +82,9 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
-- 
2.43.0


From 34ea1d5b280c0839ad9b48eb99871bae45b855f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 04/21] fix: data memory bounds check and stale output

Accesses to the last eight bytes were refused, addresses near 2^64 overflowed
the check, and the data output kept its previous value when neither reading
nor writing.
---
 sim/src/architectures/hardware_pipe.rs | 9 ++++-----
 sim/src/architectures/hardware_seq.rs  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 8c1d2eb..1765fcf 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -170,17 +170,16 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
-            *dataout = 0;
-            *error = true;
+        *dataout = 0;
+        // without an access there is no address to be checked
+        *error = (read || write) && addr > MEM_SIZE as u64 - 8;
+        if *error {
             return
         }
-        *error = false;
         if write {
             tracing::info!("write memory: addr = {:#x}, datain = {:#x}", addr, datain);
             let section: &mut [u8] = &mut binary.write()[(addr as usize)..];
             put_u64(section, datain);
-            *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
         }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index bbfc30f..71e1f06 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -157,17 +157,16 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
-            *dataout = 0;
-            *error = true;
+        *dataout = 0;
+        // without an access there is no address to be checked
+        *error = (read || write) && addr > MEM_SIZE as u64 - 8;
+        if *error {
             return
         }
-        *error = false;
         if write {
             tracing::info!("write memory: addr = {:#x}, datain = {:#x}", addr, datain);
             let section: &mut [u8] = &mut binary.write()[(addr as usize)..];
             put_u64(section, datain);
-            *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
         }
-- 
2.43.0


From 12202af68db8c29849d71a9c482180689b798736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 05/21] fix: parse negative hexadecimal literals

The sign was looked for at the end of the literal, so that e.g. -0x10 could not
be parsed (and made the assembler panic).
---
 sim/src/utils.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..04c7c7f 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,14 +14,19 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
-    if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
-    }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
+    let (negative, digits) = match s.strip_prefix('-') {
+        Some(digits) => (true, digits),
+        None => (false, s),
+    };
+    if !digits.starts_with(|c: char| c.is_ascii_hexdigit()) {
+        return None;
     }
-    None
+    let value = match digits.strip_prefix("0x") {
+        Some(hex) => u64::from_str_radix(hex, 16).ok()?,
+        // the magnitude of a negative number can be larger by one
+        None => (digits.parse::<u64>().ok()).filter(|v| *v <= i64::MAX as u64 + negative as u64)?,
+    };
+    Some(if negative { value.wrapping_neg() } else { value })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From 81f3746c3126be92a8182cb9602527c2cd727ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 06/21] fix: assembler reports out-of-range number literals as
 errors instead of panicking

---
 sim/src/asm/mod.rs | 55 ++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..4c48e9d 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -135,23 +135,29 @@ impl OpFn {
     }
 }
 
+/// Parse a number literal, which may be out of range.
+fn parse_num(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("invalid number literal: {s}"))
+}
+
 /// Address mode expression with optional displacement
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
-            let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_num(num_or_reg.as_str())?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num), reg))
         }
     }
 }
@@ -163,15 +169,16 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         if value.as_rule() == Rule::label {
-            Self::Label(value.as_str().to_string())
+            Ok(Self::Label(value.as_str().to_string()))
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
+            Ok(Self::Num(parse_num(s)? as i64))
         }
     }
 }
@@ -297,13 +304,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -366,19 +373,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -391,7 +398,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -399,12 +406,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -420,12 +427,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -444,7 +451,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_align => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
-- 
2.43.0


From 3916729de31ffb43395c7586b490478e0a0137fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 07/21] fix: assembler reports lines outside the memory as
 errors instead of panicking

---
 sim/src/asm/mod.rs | 35 +++++++++++++++++++----------------
 sim/src/object.rs  |  8 ++++++++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 4c48e9d..e417bf5 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -363,67 +363,67 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                         "ret" => Inst::RET,
                         _ => panic!("invalid instruction"),
                     });
-                    cur_addr += 1
+                    cur_addr = cur_addr.wrapping_add(1)
                 }
                 Rule::i_cmovq => {
                     let cond_fn = CondFn::from(it.next_str());
                     let reg_a = it.next_reg();
                     let reg_b = it.next_reg();
                     src_info.inst = Some(Inst::CMOVX(cond_fn, reg_a, reg_b));
-                    cur_addr += 2
+                    cur_addr = cur_addr.wrapping_add(2)
                 }
                 Rule::i_mrmovq => {
                     let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
-                    cur_addr += 10
+                    cur_addr = cur_addr.wrapping_add(10)
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
                     let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
-                    cur_addr += 10
+                    cur_addr = cur_addr.wrapping_add(10)
                 }
                 Rule::i_irmovq => {
                     let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
-                    cur_addr += 10
+                    cur_addr = cur_addr.wrapping_add(10)
                 }
                 Rule::i_opq => {
                     let reg_a = it.next_reg();
                     let reg_b = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::OPQ(op_fn, reg_a, reg_b));
-                    cur_addr += 2
+                    cur_addr = cur_addr.wrapping_add(2)
                 }
                 Rule::i_iopq => {
                     let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
-                    cur_addr += 10
+                    cur_addr = cur_addr.wrapping_add(10)
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
                     let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
-                    cur_addr += 9
+                    cur_addr = cur_addr.wrapping_add(9)
                 }
                 Rule::i_call => {
                     let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
-                    cur_addr += 9
+                    cur_addr = cur_addr.wrapping_add(9)
                 }
                 Rule::i_pushq => {
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::PUSHQ(reg));
-                    cur_addr += 2
+                    cur_addr = cur_addr.wrapping_add(2)
                 }
                 Rule::i_popq => {
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::POPQ(reg));
-                    cur_addr += 2
+                    cur_addr = cur_addr.wrapping_add(2)
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
@@ -435,16 +435,16 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
-                        cur_addr += 8;
+                        cur_addr = cur_addr.wrapping_add(8);
                     } else if tok2.as_str().starts_with(".long") {
                         src_info.data = Some((4, imm));
-                        cur_addr += 4;
+                        cur_addr = cur_addr.wrapping_add(4);
                     } else if tok2.as_str().starts_with(".word") {
                         src_info.data = Some((2, imm));
-                        cur_addr += 2;
+                        cur_addr = cur_addr.wrapping_add(2);
                     } else if tok2.as_str().starts_with(".byte") {
                         src_info.data = Some((1, imm));
-                        cur_addr += 1;
+                        cur_addr = cur_addr.wrapping_add(1);
                     } else {
                         bail!("invalid data directive: {}", tok2.as_str())
                     }
@@ -454,7 +454,10 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
-                        cur_addr = cur_addr / num * num + num // ceil
+                        // ceil
+                        cur_addr = (cur_addr / num * num)
+                            .checked_add(num)
+                            .context("align address overflow")?
                     }
                     src_info.addr = Some(cur_addr) // override
                 }
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..17e752c 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -55,6 +55,14 @@ macro_rules! h2 {
 impl LineInfo {
     pub fn write_object(&self, obj: &mut Object) -> anyhow::Result<()> {
         if let Some(addr) = self.addr {
+            let inst_len = self.inst.as_ref().map_or(0, |inst| inst.len());
+            let data_len = self.data.as_ref().map_or(0, |(sz, _)| *sz as usize);
+            let len = inst_len.max(data_len) as u64;
+            anyhow::ensure!(
+                len == 0 || addr.checked_add(len).is_some_and(|end| end <= BIN_SIZE as u64),
+                "address out of memory: {:#x}",
+                addr
+            );
             let addr = addr as usize;
             if let Some(inst) = &self.inst {
                 match inst.desymbol(&obj.symbols)? {
-- 
2.43.0


From c4916272f5351fb3b8c10a9800dcaae7a46dd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 08/21] fix: operation of iopq instructions is not affected by
 the name of their label operand

E.g. 'iaddq andq, %rax' was assembled as iandq.
---
 sim/src/asm/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index e417bf5..0272a0f 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -121,13 +121,15 @@ impl From<&str> for CondFn {
 
 impl OpFn {
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        // only look at the name: operands can be labels that contain other names
+        let value = value.strip_prefix('i').unwrap_or(value);
+        if value.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if value.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if value.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if value.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From 05b689eebc9ce07433e8a9f4da831c14c2a34fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 09/21] fix: refuse malformed .yo files instead of panicking

Odd-length or non-hexadecimal byte strings and addresses outside the memory made
the ISA simulator tool panic.
---
 sim/src/bin/yis.rs | 5 ++++-
 sim/src/utils.rs   | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sim/src/bin/yis.rs b/sim/src/bin/yis.rs
index 08c569b..f8c0c98 100644
--- a/sim/src/bin/yis.rs
+++ b/sim/src/bin/yis.rs
@@ -41,7 +41,10 @@ fn main() -> Result<()> {
                 let value = line[sep + 1..index].trim();
                 if !value.is_empty() {
                     let bytes = utils::decode_hex(value)?;
-                    bin[addr..addr + bytes.len()].copy_from_slice(&bytes);
+                    addr.checked_add(bytes.len())
+                        .and_then(|end| bin.get_mut(addr..end))
+                        .with_context(|| format!("address out of memory: {addr:#x}"))?
+                        .copy_from_slice(&bytes);
                 }
             }
         }
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 04c7c7f..b7fcfce 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -45,10 +45,14 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 }
 
 /// Decode hexadecimal string to byte array.
-pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
+pub fn decode_hex(s: &str) -> anyhow::Result<Vec<u8>> {
+    anyhow::ensure!(
+        s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit()),
+        "invalid hexadecimal string: {s}"
+    );
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| Ok(u8::from_str_radix(&s[i..i + 2], 16)?))
         .collect()
 }
 
-- 
2.43.0


From 57eea82ddb20f7372d8e52d04d44ac97aae37743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 10/21] fix: refuse a sign after the prefix of a hexadecimal
 literal

---
 sim/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index b7fcfce..bb74433 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -18,7 +18,8 @@ pub fn parse_literal(s: &str) -> Option<u64> {
         Some(digits) => (true, digits),
         None => (false, s),
     };
-    if !digits.starts_with(|c: char| c.is_ascii_hexdigit()) {
+    // the integer parsers of the standard library would accept a sign
+    if !digits.bytes().all(|b| b.is_ascii_alphanumeric()) {
         return None;
     }
     let value = match digits.strip_prefix("0x") {
-- 
2.43.0


From 527779a8cb0ca0354dcdb9e60300d783d5bfa5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 11/21] fix: breakpoints on lines outside the file are
 unverified instead of ending the session

---
 debugger/src/server.rs | 10 +++-------
 sim/src/object.rs      |  3 +--
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..0c5ed7b 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -196,15 +196,11 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                     .iter()
                     .map(|b| {
                         let verified = true;
-                        let ln = inner
-                            .source_info
-                            .get_line(b.line)
-                            .expect("invalid breakpoint line");
-                        let message = ln.addr.map(|a| format!("addr: {:#x}", a));
-
-                        let Some(addr) = ln.addr else {
+                        let ln = inner.source_info.get_line(b.line);
+                        let Some(addr) = ln.and_then(|ln| ln.addr) else {
                             return types::Breakpoint::default();
                         };
+                        let message = Some(format!("addr: {:#x}", addr));
 
                         types::Breakpoint {
                             // we use the address as the id
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 17e752c..d538138 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -185,8 +185,7 @@ impl From<Vec<LineInfo>> for SourceInfo {
 impl SourceInfo {
     /// Get the line info by line number (start from 1)
     pub fn get_line(&self, line: i64) -> Option<&LineInfo> {
-        assert!(line > 0);
-        self.0.get(line as usize - 1)
+        self.0.get(usize::try_from(line).ok()?.checked_sub(1)?)
     }
 
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
-- 
2.43.0


From c85b948357a4399261447d9ec1fbcb0a726b15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 12/21] fix: breakpoints hit on every line that shares its
 address with an earlier line

---
 debugger/src/server.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 0c5ed7b..49902a9 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -475,14 +475,8 @@ impl<R: Read, W: Write> DebugServer<R, W> {
 
             let pc = sim.program_counter();
 
-            if let Some(bp) = self.breakpoints.iter().find(|bp| {
-                let Some(bp_ln) = bp.line else { return false };
-                inner
-                    .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
-            }) {
+            // the id of a breakpoint is its address
+            if let Some(bp) = self.breakpoints.iter().find(|bp| bp.id == Some(pc as i64)) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
                 self.server
-- 
2.43.0


From 00758ef2f9acaa25eaad39c9e6c2f023e8f96095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 13/21] fix: stack trace shows the line of the instruction
 instead of an earlier line at its address

---
 sim/src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sim/src/object.rs b/sim/src/object.rs
index d538138..61fc4da 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -188,10 +188,14 @@ impl SourceInfo {
         self.0.get(usize::try_from(line).ok()?.checked_sub(1)?)
     }
 
+    /// Get the number of a line standing at the address (start from 1). The
+    /// line of an instruction precedes those of labels and directives.
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
+        let at_addr = |x: &LineInfo| x.addr == Some(addr);
         self.0
             .iter()
-            .position(|x| x.addr == Some(addr))
+            .position(|x| at_addr(x) && x.inst.is_some())
+            .or_else(|| self.0.iter().position(at_addr))
             .map(|x| x as i64 + 1)
     }
 }
-- 
2.43.0


From 5dcd59ff985721d0d33838fb5d7522603350d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 14/21] fix: register scope refers to the launched program
 instead of the previous one

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 49902a9..76859a3 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -123,7 +123,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 presentation_hint: Some(types::ScopePresentationhint::Registers),
                 variables_reference: REG_SCOPE_VAR_REF,
                 expensive: false,
-                source: Some(self.main_source()),
+                source: Some(main_source),
                 ..Default::default()
             },
         );
-- 
2.43.0


From 1a66da903b7803ffdfe093390d1aaec3cfa08106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 15/21] fix: running requests before launch fail instead of
 ending the session

---
 debugger/src/server.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 76859a3..a5e00fb 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -171,10 +171,14 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             Command::Disconnect(_) => {
                 bail!("can not handle disconnect command in the handler");
             }
-            Command::ConfigurationDone => Ok((
-                req.success(ResponseBody::ConfigurationDone),
-                ServerStatus::RunProg(RunProgKind::InitialRun),
-            )),
+            Command::ConfigurationDone => {
+                // there has to be a program to run
+                self.inner()?;
+                Ok((
+                    req.success(ResponseBody::ConfigurationDone),
+                    ServerStatus::RunProg(RunProgKind::InitialRun),
+                ))
+            }
             Command::SetBreakpoints(args) => {
                 let Some(breakpoints) = &args.breakpoints else {
                     bail!("missing breakpoints");
@@ -345,6 +349,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 // we do not care about the granularity
                 Ok((
                     req.success(ResponseBody::Next),
@@ -355,6 +360,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 Ok((
                     req.success(ResponseBody::Continue(responses::ContinueResponse {
                         // we have exactly one thread
-- 
2.43.0


From bd22789e2055b55b0d9a8de4ca70b8280438ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 16/21] fix: respond to the disconnect request

---
 debugger/src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index a5e00fb..5a6104f 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -406,6 +406,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
         };
 
         if let Command::Disconnect(_) = req.command {
+            self.server.respond(req.success(ResponseBody::Disconnect))?;
             bail!("disconnect command received");
         }
 
-- 
2.43.0


From 346b4be829c680832a53ea9b5fc1b099184981fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 17/21] fix: evaluation order of circuit nodes does not depend
 on hash seeds

---
 sim/src/framework/propagate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..2c9ebc3 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{BTreeSet, HashMap, HashSet, VecDeque},
     fmt::{Debug, Write},
     hash::Hash,
 };
@@ -95,7 +95,8 @@ pub struct PropOrderBuilder {
     runnable_nodes_set: HashSet<String>,
     /// Runnable nodes includes units and intermediate signals.
     runnable_nodes: NameList,
-    nodes: HashSet<String>,
+    /// ordered, so that the evaluation order is the same in every run
+    nodes: BTreeSet<String>,
     edges: Vec<(String, String)>,
 }
 
-- 
2.43.0


From e2f9e11531252301287e9b412c78fbfc262eaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 18/21] fix: circuits keep units without ports and count units
 without inputs

---
 sim/src/framework/propagate.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 2c9ebc3..f03ef06 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -128,6 +128,7 @@ impl PropOrderBuilder {
             panic!("duplicate unit name: {}", unit_name)
         }
         self.runnable_nodes.push((true, unit_name));
+        self.nodes.insert(unit_name.to_string());
     }
 
     pub fn add_unit_input(&mut self, unit_name: &'static str, field_name: &'static str) {
@@ -183,15 +184,14 @@ impl PropOrderBuilder {
         let mut dist: HashMap<&str, u32> = HashMap::new();
         for node in levels {
             let is_unit = self.runnable_nodes.iter().any(|(is, p)| *is && p == node);
-            for from in self
+            let dist_from = self
                 .edges
                 .iter()
                 .filter_map(|(from, to)| (to == node).then_some(from))
-            {
-                let dist_from = dist.get(from.as_str()).copied().unwrap_or(0);
-                let dist_node = dist.entry(node).or_default();
-                *dist_node = (*dist_node).max(dist_from + is_unit as u32);
-            }
+                .filter_map(|from| dist.get(from.as_str()).copied())
+                .max()
+                .unwrap_or_default();
+            dist.insert(node, dist_from + is_unit as u32);
         }
         let max_dist = dist.values().max().copied().unwrap_or_default() + 1;
 
-- 
2.43.0


From 1863d6fc6373d283a6ce18017dc26e6e3f1e26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 19/21] fix: least variables reference fails instead of
 overflowing

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 5a6104f..6a1a2fc 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -319,7 +319,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
+                    let index = args.variables_reference.saturating_sub(2);
                     if index < 0 {
                         bail!("invalid variables reference {index}");
                     }
-- 
2.43.0


From d95ff952499588538a064725153082b806c0ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 20/21] Hooks for verification: order, pipeline registers and
 further architectures behind cfg(y86_verif)

---
 sim/src/architectures/mod.rs   |  7 +++++++
 sim/src/framework/mod.rs       | 14 ++++++++++++++
 sim/src/framework/propagate.rs | 16 ++++++++++++++++
 sim/src/lib.rs                 |  3 +++
 4 files changed, 40 insertions(+)

diff --git a/sim/src/architectures/mod.rs b/sim/src/architectures/mod.rs
index b0d0ddd..cb0eef6 100644
--- a/sim/src/architectures/mod.rs
+++ b/sim/src/architectures/mod.rs
@@ -7,6 +7,13 @@ mod builtin;
 mod extra;
 mod invalid;
 
+// Further architectures, given by a file outside the repository. Only compiled
+// for verification (see the `y86_verif` cfg).
+#[cfg(y86_verif)]
+pub mod verif {
+    include!(env!("Y86_VERIF_INC"));
+}
+
 pub use extra::ARCH_NAMES as EXTRA_ARCH_NAMES;
 
 use crate::framework::{CpuSim, MemData, PipeSim};
diff --git a/sim/src/framework/mod.rs b/sim/src/framework/mod.rs
index 81b02b5..b62003a 100644
--- a/sim/src/framework/mod.rs
+++ b/sim/src/framework/mod.rs
@@ -162,6 +162,20 @@ impl<T: CpuArch> PipeSim<T> {
     }
 }
 
+/// Access to the evaluation order and the pipeline registers, only compiled for
+/// verification.
+#[cfg(y86_verif)]
+impl<T: CpuArch> PipeSim<T> {
+    pub fn verif_order(&mut self) -> &mut PropOrder {
+        &mut self.circuit.order
+    }
+
+    /// The pipeline registers and their inputs.
+    pub fn verif_stages(&self) -> (&T::StageState, &T::StageState) {
+        (&self.cur_state, &self.nex_state)
+    }
+}
+
 #[derive(Debug)]
 pub struct StageInfo {
     /// name of the stage
diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index f03ef06..9e8f9bd 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -29,6 +29,22 @@ pub struct PropOrder {
     pub(crate) edges: Vec<(String, String)>,
 }
 
+/// Access to the computed order, only compiled for verification.
+#[cfg(y86_verif)]
+impl PropOrder {
+    pub fn verif_items(&mut self) -> &mut Vec<PropOrderItem> {
+        &mut self.order
+    }
+
+    pub fn verif_edges(&self) -> &[(String, String)] {
+        &self.edges
+    }
+
+    pub fn verif_max_dist(&self) -> u32 {
+        self.max_dist
+    }
+}
+
 impl std::fmt::Display for PropOrder {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         writeln!(f, "propagate order:")?;
diff --git a/sim/src/lib.rs b/sim/src/lib.rs
index 7d4a345..c04e6fe 100644
--- a/sim/src/lib.rs
+++ b/sim/src/lib.rs
@@ -1,3 +1,6 @@
+// `y86_verif` is set with RUSTFLAGS for verification
+#![allow(unexpected_cfgs)]
+
 pub mod architectures;
 mod asm;
 mod dsl;
-- 
2.43.0


From 34cfcad8fdf342febaa6231570ee08c1412d0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:22 +0000
Subject: [PATCH 21/21] fix: debug server goes on when a connection can not be
 accepted or served

---
 debugger/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index f1cdd38..92e6bee 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -1,6 +1,6 @@
 mod server;
 
-use std::net::SocketAddr;
+use std::{net::SocketAddr, time::Duration};
 
 use anyhow::Context;
 
@@ -29,7 +29,7 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
         match s {
             Ok(s) => {
                 tracing::trace!("accepted connection");
-                std::thread::Builder::new()
+                let r = std::thread::Builder::new()
                     .stack_size(32 << 20)
                     .spawn(move || {
                         let server = server::DebugServer::new(
@@ -39,11 +39,16 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
                         );
                         let r = server.start();
                         tracing::trace!("connection closed, result: {:?}", r);
-                    })?;
+                    });
+                if let Err(e) = r {
+                    tracing::error!("failed to serve connection: {:?}", e);
+                }
             }
             Err(e) => {
+                // e.g. too many open files. The open sessions go on, and further
+                // ones are accepted when some of them are closed.
                 tracing::error!("failed to accept connection: {:?}", e);
-                break;
+                std::thread::sleep(Duration::from_millis(50));
             }
         }
     }
-- 
2.43.0

