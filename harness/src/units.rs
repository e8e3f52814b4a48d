//! C25: every hardware unit of both hardware sets, driven directly through input histories.
use crate::common::*;
use crate::fam::{vals_big, Dig};
use crate::refisa::{ilen, Cc, Mem, MEM};
use serde_json::json;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use y86_sim::architectures::{hardware_pipe as hp, hardware_seq as hs};
use y86_sim::framework::{HardwareUnits, MemData};
use y86_sim::isa::ConditionCode;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum In {
    Imem(u64),
    Align(bool, [u8; 9]),
    PcInc(bool, bool, u64),
    /// srcA, srcB
    Read(u8, u8),
    /// dstE, dstM, valE, valM
    Write(u8, u8, u64, u64),
    /// write and read in one cycle
    File(u8, u8, u8, u8, u64, u64),
    Alu(u64, u64, u8),
    Cc(bool, u64, u64, u64, u8),
    Cond(u8, Cc),
    /// addr, datain, read, write
    Dmem(u64, u64, bool, bool),
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Out {
    Imem {
        error: bool,
        icode: u8,
        ifun: u8,
        align: [u8; 9],
    },
    Align(u8, u8, u64),
    Pc(u64),
    Vals(u64, u64),
    None,
    E(u64),
    Cc(Cc),
    Cnd(bool),
    Dmem(u64, bool),
}

/// The architectural state behind the units.
#[derive(Clone)]
struct Ref {
    regs: [u64; 16],
    cc: Cc,
    mem: Box<Mem>,
}

fn le(b: &[u8]) -> u64 {
    (0..8).map(|i| (b[i] as u64) << (8 * i)).sum()
}

impl Ref {
    fn step(&mut self, i: In) -> Out {
        match i {
            In::Imem(pc) => {
                let byte = |k: u64| {
                    pc.checked_add(k)
                        .filter(|a| *a < MEM as u64)
                        .map_or(0, |a| self.mem[a as usize])
                };
                let icode = byte(0) >> 4;
                let error = pc >= MEM as u64 || ilen(icode) > MEM as u64 - pc;
                Out::Imem {
                    error,
                    icode,
                    ifun: byte(0) & 15,
                    align: std::array::from_fn(|k| byte(k as u64 + 1)),
                }
            }
            In::Align(true, a) => Out::Align(a[0] / 16, a[0] % 16, le(&a[1..])),
            In::Align(false, a) => Out::Align(15, 15, le(&a[..8])),
            In::PcInc(c, r, pc) => Out::Pc(pc.wrapping_add(1 + 8 * c as u64 + r as u64)),
            In::Read(a, b) => Out::Vals(self.get(a), self.get(b)),
            In::Write(e, m, ve, vm) => {
                self.put(e, ve);
                self.put(m, vm);
                Out::None
            }
            In::File(a, b, e, m, ve, vm) => {
                self.put(e, ve);
                self.put(m, vm);
                Out::Vals(self.get(a), self.get(b))
            }
            In::Alu(a, b, f) => Out::E(match f {
                0 => b.wrapping_add(a),
                1 => b.wrapping_sub(a),
                2 => b & a,
                3 => b ^ a,
                _ => 0,
            }),
            In::Cc(set, a, b, e, f) => {
                if set {
                    let of = match f {
                        0 => (b as i64).checked_add(a as i64).is_none(),
                        1 => (b as i64).checked_sub(a as i64).is_none(),
                        _ => false,
                    };
                    self.cc = Cc {
                        sf: e >> 63 == 1,
                        zf: e == 0,
                        of,
                    };
                }
                Out::Cc(self.cc)
            }
            In::Cond(f, c) => Out::Cnd(c.cond(f)),
            In::Dmem(a, d, rd, wr) => {
                if !rd && !wr {
                    return Out::Dmem(0, false);
                }
                if a > MEM as u64 - 8 {
                    return Out::Dmem(0, true);
                }
                let a = a as usize;
                if wr {
                    self.mem[a..a + 8].copy_from_slice(&d.to_le_bytes());
                    return Out::Dmem(0, false);
                }
                Out::Dmem(le(&self.mem[a..a + 8]), false)
            }
        }
    }
    fn get(&self, r: u8) -> u64 {
        if r == 15 {
            0
        } else {
            self.regs[r as usize]
        }
    }
    fn put(&mut self, r: u8, v: u64) {
        if r != 15 {
            self.regs[r as usize] = v;
        }
    }
}

trait Hw {
    const NAME: &'static str;
    fn make(m: MemData) -> Self;
    /// None: this hardware set has no such unit
    fn run(&mut self, i: In) -> Option<Out>;
    /// Fill every output with something no input asked for.
    fn poison(&mut self, k: u8);
    fn regs(&self) -> [u64; 16];
}

fn cc_in(c: Cc) -> ConditionCode {
    ConditionCode {
        sf: c.sf,
        of: c.of,
        zf: c.zf,
    }
}
fn cc_out(c: ConditionCode) -> Cc {
    Cc {
        sf: c.sf,
        of: c.of,
        zf: c.zf,
    }
}

macro_rules! hardware {
    ($t:ident, $m:ident, $name:literal, |$u:ident, $i:ident, $o:ident| { $($arms:tt)* }, |$q:ident, $k:ident| $extra:block) => {
        struct $t {
            u: $m::Units,
            i: $m::UnitInputSignal,
            o: $m::UnitOutputSignal,
        }
        impl Hw for $t {
            const NAME: &'static str = $name;
            fn make(m: MemData) -> Self {
                $t { u: $m::Units::init(m), i: Default::default(), o: Default::default() }
            }
            fn regs(&self) -> [u64; 16] {
                self.u.register_file()
            }
            fn poison(&mut self, $k: u8) {
                let w = $k as u64 * 0x0101_0101_0101_0101;
                let $q = &mut self.o;
                $q.imem.error = $k & 1 == 1;
                $q.imem.icode = $k & 15;
                $q.imem.ifun = $k & 15;
                $q.imem.align = [$k; 9];
                $q.ialign.rA = $k & 15;
                $q.ialign.rB = $k & 15;
                $q.ialign.valC = w;
                $q.pc_inc.new_pc = w;
                $q.alu.e = w;
                $q.reg_cc.cc = cc_in(Cc { sf: $k & 1 == 1, of: $k & 1 == 1, zf: $k & 1 == 1 });
                $q.cond.cnd = $k & 1 == 1;
                $q.dmem.dataout = w;
                $q.dmem.error = $k & 1 == 1;
                $extra
            }
            fn run(&mut self, i: In) -> Option<Out> {
                let ($u, $i, $o) = (&mut self.u, &mut self.i, &mut self.o);
                Some(match i {
                    In::Imem(pc) => {
                        $i.imem.pc = pc;
                        $u.run("imem", ($i, $o));
                        Out::Imem { error: $o.imem.error, icode: $o.imem.icode, ifun: $o.imem.ifun, align: $o.imem.align }
                    }
                    In::Align(r, a) => {
                        $i.ialign.need_regids = r;
                        $i.ialign.align = a;
                        $u.run("ialign", ($i, $o));
                        Out::Align($o.ialign.rA, $o.ialign.rB, $o.ialign.valC)
                    }
                    In::PcInc(c, r, pc) => {
                        $i.pc_inc.need_valC = c;
                        $i.pc_inc.need_regids = r;
                        $i.pc_inc.old_pc = pc;
                        $u.run("pc_inc", ($i, $o));
                        Out::Pc($o.pc_inc.new_pc)
                    }
                    In::Alu(a, b, f) => {
                        $i.alu.a = a;
                        $i.alu.b = b;
                        $i.alu.fun = f;
                        $u.run("alu", ($i, $o));
                        Out::E($o.alu.e)
                    }
                    In::Cc(s, a, b, e, f) => {
                        $i.reg_cc.set_cc = s;
                        $i.reg_cc.a = a;
                        $i.reg_cc.b = b;
                        $i.reg_cc.e = e;
                        $i.reg_cc.opfun = f;
                        $u.run("reg_cc", ($i, $o));
                        Out::Cc(cc_out($o.reg_cc.cc))
                    }
                    In::Cond(f, c) => {
                        $i.cond.condfun = f;
                        $i.cond.cc = cc_in(c);
                        $u.run("cond", ($i, $o));
                        Out::Cnd($o.cond.cnd)
                    }
                    In::Dmem(a, d, rd, wr) => {
                        $i.dmem.addr = a;
                        $i.dmem.datain = d;
                        $i.dmem.read = rd;
                        $i.dmem.write = wr;
                        $u.run("dmem", ($i, $o));
                        Out::Dmem($o.dmem.dataout, $o.dmem.error)
                    }
                    $($arms)*
                    #[allow(unreachable_patterns)]
                    _ => return None,
                })
            }
        }
    };
}

hardware!(Seq, hs, "hardware_seq", |u, i, o| {
    In::Read(a, b) => {
        i.reg_read.srcA = a;
        i.reg_read.srcB = b;
        u.run("reg_read", (i, o));
        Out::Vals(o.reg_read.valA, o.reg_read.valB)
    }
    In::Write(e, m, ve, vm) => {
        i.reg_write.dstE = e;
        i.reg_write.dstM = m;
        i.reg_write.valE = ve;
        i.reg_write.valM = vm;
        u.run("reg_write", (i, o));
        Out::None
    }
}, |q, k| {
    q.reg_read.valA = k as u64;
    q.reg_read.valB = k as u64;
});

hardware!(Pipe, hp, "hardware_pipe", |u, i, o| {
    In::File(a, b, e, m, ve, vm) => {
        i.reg_file.srcA = a;
        i.reg_file.srcB = b;
        i.reg_file.dstE = e;
        i.reg_file.dstM = m;
        i.reg_file.valE = ve;
        i.reg_file.valM = vm;
        u.run("reg_file", (i, o));
        Out::Vals(o.reg_file.valA, o.reg_file.valB)
    }
}, |q, k| {
    q.reg_file.valA = k as u64;
    q.reg_file.valB = k as u64;
});

/// Only what the contracts of the units speak about.
fn relevant(i: In, o: &mut Out) {
    match (i, &mut *o) {
        // undefined functions and conditions
        (In::Alu(_, _, 4..), Out::E(e)) => *e = 0,
        (In::Cond(7.., _), Out::Cnd(c)) => *c = false,
        // read and write at once
        (In::Dmem(_, _, true, true), Out::Dmem(d, false)) => *d = 0,
        _ => {}
    }
    if let (
        In::Imem(pc),
        Out::Imem {
            error,
            icode,
            ifun,
            align,
        },
    ) = (i, o)
    {
        if *error {
            *icode = 0;
            *ifun = 0;
            *align = [0; 9];
        } else {
            // bytes behind the end of memory are not described
            for (k, b) in align.iter_mut().enumerate() {
                if pc + 1 + k as u64 >= MEM as u64 {
                    *b = 0;
                }
            }
        }
    }
}

struct Pair<H: Hw> {
    hw: H,
    rf: Ref,
    mem: MemData,
}

fn content(a: usize) -> u8 {
    (a as u8)
        .wrapping_mul(0x3d)
        .wrapping_add((a >> 8) as u8 ^ 0x5a)
}

impl<H: Hw> Pair<H> {
    fn new() -> Self {
        let m: Box<Mem> = {
            let mut m = Box::new([0u8; MEM]);
            for (a, b) in m.iter_mut().enumerate() {
                *b = content(a);
            }
            m
        };
        let mem = MemData::init(*m);
        Pair {
            hw: H::make(mem.clone()),
            rf: Ref {
                regs: [0; 16],
                cc: Cc::default(),
                mem: m,
            },
            mem,
        }
    }
    /// New units on the same memory.
    fn fresh(&mut self) {
        self.hw = H::make(self.mem.clone());
        self.rf.regs = [0; 16];
        self.rf.cc = Cc::default();
    }
    /// The written bytes back to their initial contents, in the units' memory and the reference.
    fn restore(&mut self, addrs: &[u64]) {
        let mut m = self.mem.write();
        for &a in addrs {
            for b in a.saturating_sub(8)..a.saturating_add(16).min(MEM as u64) {
                m[b as usize] = content(b as usize);
                self.rf.mem[b as usize] = content(b as usize);
            }
        }
    }
    fn poke(&mut self, a: usize, b: &[u8]) {
        self.mem.write()[a..a + b.len()].copy_from_slice(b);
        self.rf.mem[a..a + b.len()].copy_from_slice(b);
    }
    /// One cycle of one unit. Ok(false): no such unit in this set.
    fn step(&mut self, i: In) -> Result<bool, String> {
        let got = match guard(|| self.hw.run(i)) {
            Ok(None) => return Ok(false),
            Ok(Some(g)) => g,
            Err(p) => return Err(format!("{}: {i:x?} crashed: {p}", H::NAME)),
        };
        let want = self.rf.step(i);
        let (mut g, mut w) = (got.clone(), want.clone());
        relevant(i, &mut g);
        relevant(i, &mut w);
        if g != w {
            return Err(format!(
                "{}: {i:x?} gives {got:x?}, should be {want:x?}",
                H::NAME
            ));
        }
        Ok(true)
    }
    fn state(&self, mem: bool) -> Result<(), String> {
        let r = self.hw.regs();
        if r[..15] != self.rf.regs[..15] {
            return Err(format!(
                "{}: register file is {r:x?}, should be {:x?}",
                H::NAME,
                self.rf.regs
            ));
        }
        if mem {
            if let Some(d) = crate::arch::diff_mem(&self.rf.mem, &self.mem.read()) {
                return Err(format!("{}: {d}", H::NAME));
            }
        }
        Ok(())
    }
    /// a whole history; afterwards registers and the words around the given addresses must agree
    fn history(&mut self, h: &[In], near: &[u64]) -> Result<(), String> {
        for &i in h {
            self.step(i)?;
        }
        self.state(false)?;
        let m = self.mem.read();
        for &a in near {
            for b in a.saturating_sub(8)..a.saturating_add(16).min(MEM as u64) {
                if m[b as usize] != self.rf.mem[b as usize] {
                    return Err(format!(
                        "{}: memory[{b:#x}] is {:#04x}, should be {:#04x}",
                        H::NAME,
                        m[b as usize],
                        self.rf.mem[b as usize]
                    ));
                }
            }
        }
        Ok(())
    }
}

fn report(ctx: &Ctx, hw: &str, h: &[In], e: String) {
    let t: Vec<String> = h.iter().map(|i| format!("{i:x?}")).collect();
    ctx.violation(Viol::new(
        e,
        format!("{hw}:{}", t.join(" ; ")),
        json!({"hardware": hw, "history": t}),
    ));
}

/// All histories `gen(i)`, each on new units; the memory is shared by a block of histories and put back after each.
fn histories<H: Hw>(
    ctx: &Arc<Ctx>,
    name: &str,
    n: usize,
    near: &[u64],
    gen: impl Fn(usize) -> Vec<In> + Sync,
) {
    if ctx.stopped() {
        return;
    }
    let block = 4096;
    ctx.outcome(&format!("{} / {name}", H::NAME), n as u64);
    ctx.par(n.div_ceil(block), |u| {
        ctx.begin(|| json!({"hardware": H::NAME, "family": name, "block": u}));
        let mut p: Pair<H> = Pair::new();
        let (mut tr, mut st) = (0, 0);
        for i in u * block..((u + 1) * block).min(n) {
            let h = gen(i);
            if h.is_empty() {
                continue;
            }
            p.fresh();
            if let Err(e) = p.history(&h, near) {
                report(ctx, H::NAME, &h, e);
                return;
            }
            p.restore(near);
            tr += h.len() as u64;
            st += 1;
        }
        if let Err(e) = p.state(true) {
            report(
                ctx,
                H::NAME,
                &[],
                format!("{name}, histories {}..: {e}", u * block),
            );
        }
        ctx.add(tr, tr, st);
    });
}

/// A unit without state: every input after every other output value, and every pair of inputs.
fn stateless<H: Hw>(ctx: &Arc<Ctx>, name: &str, all: &[In], pairs: &[In]) {
    if ctx.stopped() {
        return;
    }
    ctx.outcome(&format!("{} / {name}: inputs", H::NAME), all.len() as u64);
    let block = 4096;
    ctx.par(all.len().div_ceil(block), |u| {
        ctx.begin(|| json!({"hardware": H::NAME, "family": name, "block": u}));
        let mut p: Pair<H> = Pair::new();
        let s = &all[u * block..((u + 1) * block).min(all.len())];
        for &i in s {
            for k in [0u8, 0xff, 0x5a] {
                p.hw.poison(k);
                if let Err(e) = p.step(i) {
                    report(
                        ctx,
                        H::NAME,
                        &[i],
                        format!("{e} (outputs before: all bytes {k:#x})"),
                    );
                    return;
                }
            }
        }
        if let Err(e) = p.state(true) {
            report(ctx, H::NAME, s, e);
        }
        ctx.add(3 * s.len() as u64, 3 * s.len() as u64, s.len() as u64);
    });
    let n = pairs.len();
    histories::<H>(ctx, &format!("{name}: pairs"), n * n, &[], |i| {
        vec![pairs[i / n], pairs[i % n]]
    });
}

fn every<T: Copy>(v: &[T], step: usize) -> Vec<T> {
    v.iter().copied().step_by(step.max(1)).collect()
}

fn run_set<H: Hw>(ctx: &Arc<Ctx>, mined: &[u64]) {
    let vb = vals_big(mined);
    let t = ctx.thorough();
    // every function code x value pairs
    let mut v = vec![];
    for f in 0..=255u8 {
        for &a in &vb {
            for &b in &vb {
                if f < 4 || (a % 5 == 1 && b % 3 == 1) {
                    v.push(In::Alu(a, b, f));
                }
            }
        }
    }
    stateless::<H>(ctx, "alu", &v, &every(&v, v.len() / 1200));
    let ccs: Vec<Cc> = (0..8)
        .map(|k| Cc {
            sf: k & 1 == 1,
            of: k & 2 == 2,
            zf: k & 4 == 4,
        })
        .collect();
    let v: Vec<In> = (0..=255u8)
        .flat_map(|f| ccs.iter().map(move |c| In::Cond(f, *c)))
        .collect();
    stateless::<H>(ctx, "cond", &v, &v);
    let mut pcs: Vec<u64> = vb.clone();
    for d in 0..12u64 {
        pcs.push(MEM as u64 - d);
        pcs.push(u64::MAX - d);
    }
    let v: Vec<In> = pcs
        .iter()
        .flat_map(|p| (0..4).map(move |k| In::PcInc(k & 1 == 1, k & 2 == 2, *p)))
        .collect();
    stateless::<H>(ctx, "pc_inc", &v, &v);
    let mut v = vec![];
    for b0 in 0..=255u8 {
        for b1 in 0..=255u8 {
            for r in [false, true] {
                v.push(In::Align(r, [b0, b1, 2, 3, 4, 5, 6, 7, 8]));
                v.push(In::Align(
                    r,
                    [b0, 0xff, 0x80, b1, 0, 0xff, 0x7f, b1 ^ 0xff, b1],
                ));
            }
        }
    }
    for k in 0..9 {
        for b in 0..=255u8 {
            let mut a = [0u8; 9];
            a[k] = b;
            v.push(In::Align(true, a));
            v.push(In::Align(false, a));
        }
    }
    stateless::<H>(ctx, "ialign", &v, &every(&v, v.len() / 1000));
    // all placements of every first byte at the end of memory, at its start and in the middle
    imem::<H>(ctx, &vb);
    // register file
    regs::<H>(ctx, t);
    // condition codes
    cc::<H>(ctx, &vb, t);
    dmem::<H>(ctx, t);
    mixed::<H>(ctx, t);
}

fn imem<H: Hw>(ctx: &Arc<Ctx>, vb: &[u64]) {
    if ctx.stopped() {
        return;
    }
    let mut at: Vec<u64> = (0..24).map(|d| MEM as u64 - 24 + d).collect();
    at.extend([0, 1, 7, 8, 9, 0x100, 0x7ffe, 0x8000]);
    ctx.outcome(
        &format!("{} / imem: first byte x placement", H::NAME),
        256 * at.len() as u64,
    );
    let mut out: Vec<u64> = (0..24).map(|d| MEM as u64 + d).collect();
    out.extend((0..24).map(|d| u64::MAX - d));
    out.extend(vb.iter().copied());
    ctx.par(256, |b0| {
        ctx.begin(|| json!({"hardware": H::NAME, "family": "imem", "first byte": b0}));
        let mut p: Pair<H> = Pair::new();
        let mut n = 0;
        for &a in &at {
            p.poke(a as usize, &[b0 as u8]);
            for k in [0u8, 0xff] {
                p.hw.poison(k);
                let before: [In; 2] = [In::Imem(a), In::Imem(u64::MAX - 1)];
                for h in [
                    &[In::Imem(a)][..],
                    &before[..],
                    &[In::Imem(MEM as u64), In::Imem(a)][..],
                    &[In::Imem(a), In::Imem(a ^ 1)][..],
                ] {
                    n += h.len() as u64;
                    if let Err(e) = p.history(h, &[a]) {
                        report(ctx, H::NAME, h, format!("{e} (byte {b0:#x} at {a:#x})"));
                        return;
                    }
                }
            }
        }
        for &a in &out {
            p.hw.poison(b0 as u8);
            n += 1;
            if let Err(e) = p.step(In::Imem(a)) {
                report(ctx, H::NAME, &[In::Imem(a)], e);
                return;
            }
        }
        // every address once
        if b0 < 8 {
            for a in (b0 as u64 * 8192)..(b0 as u64 + 1) * 8192 {
                n += 1;
                if let Err(e) = p.step(In::Imem(a)) {
                    report(ctx, H::NAME, &[In::Imem(a)], e);
                    return;
                }
            }
        }
        if let Err(e) = p.state(true) {
            report(ctx, H::NAME, &[], e);
        }
        ctx.add(n, n, n);
    });
}

/// register operations in the form of this hardware set
fn reg_op<H: Hw>(a: u8, b: u8, e: u8, m: u8, ve: u64, vm: u64) -> Vec<In> {
    if H::NAME == "hardware_seq" {
        vec![In::Read(a, b), In::Write(e, m, ve, vm), In::Read(a, b)]
    } else {
        vec![In::File(a, b, e, m, ve, vm)]
    }
}

fn regs<H: Hw>(ctx: &Arc<Ctx>, t: bool) {
    // every combination of the four register numbers
    histories::<H>(ctx, "registers: all operands", 65536 * 3, &[], |i| {
        let mut d = Dig(i);
        let (a, b, e, m) = (d.d(16) as u8, d.d(16) as u8, d.d(16) as u8, d.d(16) as u8);
        let k = d.d(3);
        let mut h = vec![];
        // different contents everywhere
        if k == 1 {
            for r in 0..15 {
                h.extend(reg_op::<H>(15, 15, r, 15, 0x1000 + r as u64 + i as u64, 0));
            }
        }
        if k == 2 {
            for r in 0..15 {
                h.extend(reg_op::<H>(15, 15, 15, r, 0, !(r as u64 + i as u64)));
            }
        }
        h.extend(reg_op::<H>(
            a,
            b,
            e,
            m,
            0xe0e0 + i as u64,
            u64::MAX - i as u64,
        ));
        h.extend(reg_op::<H>(e, m, 15, 15, 1, 2));
        h
    });
    // all histories over a small alphabet
    let rs = [0u8, 4, 15];
    let mut al = vec![];
    for a in rs {
        for e in rs {
            for m in rs {
                for k in 0..2u64 {
                    al.push((a, e, m, k));
                }
            }
        }
    }
    let len = if t { 5 } else { 4 };
    let n = al.len().pow(len as u32);
    histories::<H>(ctx, "registers: all histories", n, &[], |i| {
        let mut w = vec![];
        word(i, al.len(), len, &mut w);
        let mut h: Vec<In> = vec![];
        for (p, k) in w.iter().enumerate() {
            let (a, e, m, k) = al[*k];
            h.extend(reg_op::<H>(
                a,
                rs[(p + 1) % 3],
                e,
                m,
                k * (p as u64 + 1),
                (1 - k) << (60 - p),
            ));
        }
        h
    });
}

fn alu(a: u64, b: u64, f: u8) -> u64 {
    match f {
        0 => b.wrapping_add(a),
        1 => b.wrapping_sub(a),
        2 => a & b,
        _ => a ^ b,
    }
}

fn cc<H: Hw>(ctx: &Arc<Ctx>, vb: &[u64], t: bool) {
    let n = vb.len();
    histories::<H>(ctx, "reg_cc: value pairs", 4 * n * n, &[], |i| {
        let mut d = Dig(i);
        let (f, a, b) = (d.d(4) as u8, vb[d.d(n)], vb[d.d(n)]);
        vec![
            In::Cc(true, a, b, alu(a, b, f), f),
            In::Cc(false, b, a, alu(b, a, 3 - f), 3 - f),
            In::Cc(true, b, a, alu(b, a, f), f),
        ]
    });
    let vs = [0u64, 1, u64::MAX, 1 << 63, (1 << 63) - 1];
    let mut al = vec![];
    for s in [true, false] {
        for f in 0..4u8 {
            for a in vs {
                for b in vs {
                    al.push(In::Cc(s, a, b, alu(a, b, f), f));
                }
            }
        }
    }
    let al = if t { every(&al, 3) } else { al };
    let len = if t { 4 } else { 3 };
    histories::<H>(ctx, "reg_cc: all histories", al.len().pow(len), &[], |i| {
        let mut w = vec![];
        word(i, al.len(), len as usize, &mut w);
        w.iter().map(|k| al[*k]).collect()
    });
}

const ADDRS: [u64; 12] = [
    0,
    1,
    4,
    8,
    0x7fff,
    0x8000,
    65520,
    65527,
    65528,
    65529,
    65536,
    u64::MAX - 3,
];

fn dmem<H: Hw>(ctx: &Arc<Ctx>, t: bool) {
    let mut al = vec![];
    for a in ADDRS {
        for (r, w) in [(false, false), (true, false), (false, true), (true, true)] {
            al.push(In::Dmem(a, 0x1122_3344_5566_7788 ^ a, r, w));
            if w {
                al.push(In::Dmem(a, u64::MAX << (a & 31), r, w));
            }
        }
    }
    let runs = if t {
        vec![(al.clone(), 4), (every(&al, 5), 6)]
    } else {
        vec![(al.clone(), 3), (every(&al, 5), 4)]
    };
    for (al, len) in runs {
        histories::<H>(
            ctx,
            &format!("dmem: all histories of length {len}"),
            al.len().pow(len),
            &ADDRS,
            |i| {
                let mut w = vec![];
                word(i, al.len(), len as usize, &mut w);
                w.iter().map(|k| al[*k]).collect()
            },
        );
    }
    // every address, every mode
    histories::<H>(ctx, "dmem: every address", 4 * (MEM + 64), &[], |i| {
        let mut d = Dig(i);
        let (k, a) = (d.d(4), d.0 as u64);
        let (r, w) = (k & 1 == 1, k & 2 == 2);
        // what is written is what is there, so that the contents stay as they are
        let data = if a <= MEM as u64 - 8 {
            le(&std::array::from_fn::<u8, 8, _>(|x| {
                content(a as usize + x)
            }))
        } else {
            5
        };
        vec![
            In::Dmem(a, data, r, w),
            In::Dmem(a, !data, false, false),
            In::Dmem(a, 0, true, false),
        ]
    });
}

/// All units together: no unit disturbs another one, and all of them see the same memory.
fn mixed<H: Hw>(ctx: &Arc<Ctx>, t: bool) {
    let a = 0x1000u64;
    let mut al: Vec<In> = vec![
        In::Imem(a),
        In::Imem(a + 1),
        In::Imem(65535),
        In::Align(true, [0x12; 9]),
        In::Align(false, [9, 8, 7, 6, 5, 4, 3, 2, 1]),
        In::PcInc(true, false, 7),
        In::Alu(1, 2, 1),
        In::Alu(1 << 63, 1, 9),
        In::Cc(true, 1, 1, 0, 1),
        In::Cc(true, 1, 1 << 63, (1 << 63) - 1, 1),
        In::Cc(false, 1, 2, 3, 0),
        In::Cond(
            4,
            Cc {
                sf: false,
                of: true,
                zf: false,
            },
        ),
        In::Cond(
            7,
            Cc {
                sf: true,
                of: true,
                zf: true,
            },
        ),
        In::Dmem(a, 0x30f0_1020_6000_9000, false, true),
        In::Dmem(a + 1, 0, true, false),
        In::Dmem(a + 4, 0xc0, true, true),
        In::Dmem(1 << 40, 3, false, true),
        In::Dmem(65528, 3, false, false),
    ];
    if H::NAME == "hardware_seq" {
        al.extend([
            In::Read(3, 15),
            In::Read(15, 3),
            In::Write(3, 15, 77, 78),
            In::Write(15, 3, 79, 80),
            In::Write(3, 3, 81, 82),
        ]);
    } else {
        al.extend([
            In::File(3, 15, 15, 15, 1, 2),
            In::File(15, 3, 3, 15, 77, 78),
            In::File(3, 3, 15, 3, 79, 80),
            In::File(3, 3, 3, 3, 81, 82),
        ]);
    }
    let len = if t { 6 } else { 5 };
    histories::<H>(
        ctx,
        "all units: all histories",
        al.len().pow(len),
        &[a],
        |i| {
            let mut w = vec![];
            word(i, al.len(), len as usize, &mut w);
            w.iter().map(|k| al[*k]).collect()
        },
    );
}

pub fn c25(ctx: &Arc<Ctx>) {
    let mined = mined();
    run_set::<Seq>(ctx, &mined);
    run_set::<Pipe>(ctx, &mined);
    ctx.programs.fetch_add(0, Relaxed);
    ctx.assume("outputs of the instruction memory other than the error are unspecified when it reports an error, results for undefined function codes and the data-memory output of a simultaneous read and write are unspecified; register numbers are 0..15; the condition-code register is given the result of the ALU");
}
