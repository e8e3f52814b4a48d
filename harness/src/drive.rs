//! C26 (the architecture tester) and C27 (ways of driving a simulator).
use crate::arch::*;
use crate::batch::Batch;
use crate::cli::counted;
use crate::common::*;
use crate::dbgc::source_of;
use crate::fam::*;
use crate::hazards;
use crate::prog::*;
use crate::refisa::*;
use serde_json::json;
use std::sync::Arc;
use y86_sim::architectures::{arch_names, create_sim};
use y86_sim::framework::{CpuSim, MemData};
use y86_sim::test::SimTester;

// ---------------------------------------------------------------- C27

#[derive(Clone, PartialEq, Eq)]
struct Snap {
    pc: u64,
    regs: Vec<u64>,
    term: bool,
    cycles: u64,
    cost: u64,
    sig: Vec<(String, String)>,
    mem: Arc<Mem>,
    order: String,
}

fn snap(s: &dyn CpuSim, m: &MemData, last: &Arc<Mem>) -> Snap {
    let g = m.read();
    let mem = if g[..] == last[..] {
        last.clone()
    } else {
        Arc::new(*g)
    };
    Snap {
        pc: s.program_counter(),
        regs: s.registers().to_vec(),
        term: s.is_terminate(),
        cycles: s.cycle_count(),
        cost: s.cycle_cost(),
        sig: s
            .get_stage_info()
            .into_iter()
            .flat_map(|x| x.signals)
            .collect(),
        mem,
        order: String::new(),
    }
}

fn differ(a: &Snap, b: &Snap) -> Option<String> {
    if a == b {
        return None;
    }
    if a.pc != b.pc {
        return Some(format!("program counter is {:#x}, was {:#x}", b.pc, a.pc));
    }
    if a.term != b.term {
        return Some(format!("terminated is {}, was {}", b.term, a.term));
    }
    if a.cycles != b.cycles {
        return Some(format!("cycle count is {}, was {}", b.cycles, a.cycles));
    }
    if a.cost != b.cost {
        return Some(format!("cycle cost is {}, was {}", b.cost, a.cost));
    }
    for i in 0..a.regs.len() {
        if a.regs[i] != b.regs[i] {
            return Some(format!(
                "register {i} is {:#x}, was {:#x}",
                b.regs[i], a.regs[i]
            ));
        }
    }
    if let Some(d) = diff_mem(&a.mem, &b.mem) {
        return Some(d);
    }
    for (x, y) in a.sig.iter().zip(&b.sig) {
        if x != y {
            return Some(format!("signal {} is {}, was {}", y.0, y.1, x.1));
        }
    }
    Some("signals differ".into())
}

/// The execution by plain stepping; stops with the program or after `max` cycles.
struct Plain {
    arch: &'static str,
    img: Arc<Mem>,
    trace: Vec<Snap>,
    what: String,
}

fn plain(arch: &'static str, img: Mem, max: usize, what: String) -> Result<Plain, String> {
    let img = Arc::new(img);
    let mem = MemData::init(*img);
    let mut s = create_sim(arch.into(), mem.clone(), false);
    let mut trace: Vec<Snap> = vec![];
    if s.cycle_count() != 0 || s.is_terminate() {
        return Err(format!(
            "{arch}: a new simulator has cycle count {} and terminated = {}",
            s.cycle_count(),
            s.is_terminate()
        ));
    }
    while trace.len() < max && !s.is_terminate() {
        s.step();
        let x = snap(&*s, &mem, trace.last().map_or(&img, |l| &l.mem));
        if x.cycles != trace.len() as u64 + 1 {
            return Err(format!(
                "{arch}: cycle count is {} after {} steps of {what}",
                x.cycles,
                trace.len() + 1
            ));
        }
        trace.push(x);
    }
    Ok(Plain {
        arch,
        img,
        trace,
        what,
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Drive {
    Step,
    /// propagate, look, clock edge, look
    Split,
    /// step, with every inspection before and after
    StepLook,
    /// clock edge first where one is due, then propagate (as the debugger does)
    Edge,
}
const DRIVES: [Drive; 4] = [Drive::Step, Drive::Split, Drive::StepLook, Drive::Edge];

fn look(s: &dyn CpuSim) {
    let _ = s.get_stage_info();
    let _ = s.registers();
    let _ = s.proporder().to_string();
    let _ = s.to_string();
    let _ = (
        s.program_counter(),
        s.is_terminate(),
        s.cycle_count(),
        s.cycle_cost(),
    );
    let _ = s.get_stage_info();
}

struct Driven {
    sim: Box<dyn CpuSim>,
    mem: MemData,
    /// the clock edge of the last cycle is still due
    due: bool,
    n: usize,
}

impl Driven {
    fn new(p: &Plain, tty: bool) -> Driven {
        let mem = MemData::init(*p.img);
        Driven {
            sim: create_sim(p.arch.into(), mem.clone(), tty),
            mem,
            due: false,
            n: 0,
        }
    }
    /// one more cycle; the state must be that of the plain execution
    fn cycle(&mut self, p: &Plain, d: Drive) -> Result<(), String> {
        let at = |s: &str| format!("{} cycle {}: {s}", p.arch, self.n + 1);
        if self.due && d != Drive::Edge {
            self.sim.initiate_next_cycle();
            self.due = false;
        }
        let want = &p.trace[self.n];
        let prev = if self.n == 0 {
            &p.img
        } else {
            &p.trace[self.n - 1].mem
        };
        match d {
            Drive::Step => self.sim.step(),
            Drive::StepLook => {
                if self.n > 0 {
                    look(&*self.sim);
                    if let Some(e) =
                        differ(&p.trace[self.n - 1], &snap(&*self.sim, &self.mem, prev))
                    {
                        return Err(at(&format!("before the step: {e}")));
                    }
                }
                self.sim.step();
                look(&*self.sim);
            }
            Drive::Split => {
                self.sim.propagate_signals();
                look(&*self.sim);
                if let Some(e) = differ(want, &snap(&*self.sim, &self.mem, prev)) {
                    return Err(at(&format!("after propagating: {e}")));
                }
                if !self.sim.is_terminate() {
                    self.sim.initiate_next_cycle();
                }
            }
            Drive::Edge => {
                // the first edge of all meets the reset values
                if self.due || self.n == 0 {
                    self.sim.initiate_next_cycle();
                }
                self.sim.propagate_signals();
                self.due = true;
            }
        }
        if let Some(e) = differ(want, &snap(&*self.sim, &self.mem, prev)) {
            return Err(at(&e));
        }
        self.n += 1;
        Ok(())
    }
    /// after termination: it stays reported, and every cycle counts one; `i`-th operation: step, propagate, clock edge
    fn beyond(&mut self, p: &Plain, ops: &[usize]) -> Result<(), String> {
        for (i, op) in ops.iter().enumerate() {
            let before = self.sim.cycle_count();
            if guard(|| match op {
                0 => self.sim.step(),
                1 => self.sim.propagate_signals(),
                _ => self.sim.initiate_next_cycle(),
            })
            .is_err()
            {
                return Ok(()); // what a stopped machine does is not described
            }
            let t = || format!("{}: after the termination in cycle {} and {}", p.arch, p.trace.len(), after(&ops[..=i]));
            if !self.sim.is_terminate() {
                return Err(format!("{} the simulator no longer reports it", t()));
            }
            let want = before + (*op < 2) as u64;
            if self.sim.cycle_count() != want {
                return Err(format!("{} the cycle count is {}, should be {want}", t(), self.sim.cycle_count()));
            }
        }
        Ok(())
    }
}

fn after(ops: &[usize]) -> String {
    ops.iter().map(|o| ["step", "propagate", "clock edge"][*o]).collect::<Vec<_>>().join(", ")
}

/// programs that end with something else behind the last instruction
fn ends() -> Vec<(String, Mem)> {
    let tails = [vec![], vec![0x10; 24], vec![0x00, 0x10, 0x00, 0x10], vec![0xf0, 0x10, 0x10, 0x10, 0x60, 0x00], vec![0x70, 0, 0, 0, 0, 0, 0, 0, 0]];
    let lasts: Vec<Vec<I>> = vec![
        vec![I::Halt],
        vec![ir(1, RAX), I::Halt],
        vec![I::Raw(vec![0xf0])],
        vec![I::Nop, I::Raw(vec![0xc0])],
        vec![ir(0x10000, RAX), I::Ld(0, RAX, RBX)],
        vec![ir(0x10000, RAX), I::St(RBX, 0, RAX)],
        vec![ir(0x200, RSP), I::Call(T::Abs(0x40)), I::Halt],
    ];
    let mut v = vec![];
    for l in &lasts {
        for t in &tails {
            let mut p = l.clone();
            p.push(I::Raw(t.clone()));
            v.push((texts(&p).join("; "), Image::new(&p).load()));
        }
    }
    v
}

fn viol(ctx: &Ctx, p: &Plain, how: String, e: String) {
    let n = p.img.iter().rposition(|b| *b != 0).map_or(0, |k| k + 1);
    ctx.violation(Viol::new(
        format!("driven by {how}: {e}"),
        format!("{}:{}:{how}", p.arch, p.what),
        json!({"arch": p.arch, "program": p.what, "driven": how, "memory_without_trailing_zeros": hex(&p.img[..n.min(4096)])}),
    ));
}

/// short programs touching every kind of state, each with a name
fn shorts() -> Vec<(String, Mem)> {
    let mut v: Vec<Vec<I>> = vec![
        vec![
            ir(0x40, RSP),
            ir(7, RAX),
            I::Push(RAX),
            I::Pop(RBX),
            I::Op(0, RBX, RAX),
            I::Halt,
        ],
        vec![
            ir(1, RAX),
            I::St(RAX, 0x100, RAX),
            I::Ld(0x100, RAX, RCX),
            I::Op(1, RCX, RAX),
            I::J(3, T::L(0)),
            I::Halt,
            I::Lab(0),
            I::Nop,
            I::Halt,
        ],
        vec![
            ir(0x200, RSP),
            I::Call(T::L(0)),
            I::Halt,
            I::Lab(0),
            I::Op(0, RSP, RSP),
            I::Op(1, RSP, RSP),
            ir(0x1f8, RSP),
            I::Ret,
        ],
        vec![
            I::Op(3, RAX, RAX),
            I::J(4, T::L(0)),
            ir(1, RBX),
            I::Cmov(3, RBX, RCX),
            I::Halt,
            I::Lab(0),
            ir(9, RDX),
            I::Halt,
        ],
        vec![
            ir(3, RCX),
            ir(1, RDX),
            I::Lab(0),
            I::Op(1, RDX, RCX),
            I::J(4, T::L(0)),
            I::Halt,
        ],
        vec![ir(1, RAX), I::Ld(0x10000, RAX, RBX), ir(2, RCX), I::Halt],
        vec![ir(1, RAX), I::Raw(vec![0xf0]), ir(2, RAX)],
        vec![I::Nop, I::J(0, T::Abs(1 << 20))],
        vec![I::Lab(0), I::Op(0, RAX, RAX), I::J(0, T::L(0))],
        vec![I::Iop(0, 5, RAX), I::Halt],
        // modifies its own code
        vec![
            ir(0x10, RAX),
            I::St(RAX, 0x20, RBX),
            I::Nop,
            I::Nop,
            I::Nop,
            I::Halt,
        ],
        vec![I::Halt],
    ];
    let mut k = 0;
    for f in hazards::single_producer() {
        for j in [f.n / 7, f.n / 3, f.n / 2, f.n * 4 / 5] {
            if let Some(mut p) = (f.get)(j) {
                p.push(I::Halt);
                v.push(p);
                k += 1;
            }
        }
    }
    let _ = k;
    v.into_iter()
        .map(|p| (texts(&p).join("; "), Image::new(&p).load()))
        .collect()
}

pub fn c27(ctx: &Arc<Ctx>) {
    let r = silenced(|| guard(|| drives(ctx)));
    if let Err(e) = r {
        panic!("{e}");
    }
}

fn try_plain(ctx: &Ctx, arch: &'static str, img: Mem, max: usize, what: String) -> Option<Plain> {
    match guard(|| plain(arch, img, max, what.clone())) {
        Ok(Ok(p)) => Some(p),
        Ok(Err(e)) => {
            let key = e.clone();
            ctx.violation(Viol::new(e, key, json!({"arch": arch, "program": what})));
            None
        }
        Err(e) => {
            ctx.violation(Viol::new(
                format!("{arch} crashed: {e}"),
                format!("{arch}:{what}"),
                json!({"arch": arch, "program": what}),
            ));
            None
        }
    }
}

/// The count over a long run of a program that never ends, and over the cycles after termination.
fn far_counts(ctx: &Arc<Ctx>) {
    let far: u64 = ctx.pick((1 << 20) + 5, (1 << 24) + 5);
    let endless = Image::new(&[I::Lab(0), I::Nop, I::J(0, T::L(0))]).load();
    let short = Image::new(&[I::Nop, I::Halt]).load();
    ctx.par(ARCHS.len() * 2, |i| {
        let (a, ends) = (ARCHS[i / 2], i % 2 == 1);
        let what = if ends { "nop; halt" } else { "a program that never ends" };
        let r = guard(|| {
            let mut s = create_sim(a.into(), MemData::init(if ends { short } else { endless }), false);
            let mut done = None;
            for k in 1..=far {
                s.step();
                if s.cycle_count() != k {
                    return Err(format!("{a}: cycle count is {} after {k} steps of {what}", s.cycle_count()));
                }
                if s.is_terminate() && done.is_none() {
                    done = Some(k);
                }
                if s.is_terminate() != done.is_some() || done.is_some() != (ends && k >= done.unwrap_or(20)) {
                    return Err(format!("{a}: terminated is {} after {k} steps of {what}", s.is_terminate()));
                }
            }
            Ok(())
        });
        ctx.add(far, far, 1);
        let e = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(e) => format!("{a} crashed on {what}: {e}"),
        };
        ctx.violation(Viol::new(e.clone(), e, json!({"arch": a, "program": what, "cycles": far})));
    });
    ctx.outcome("long counts", 6);
}

fn drives(ctx: &Arc<Ctx>) {
    let progs = shorts();
    far_counts(ctx);
    let mut plains: Vec<Plain> = vec![];
    for a in ARCHS {
        for (t, m) in &progs {
            let Some(p) = try_plain(ctx, a, *m, 40, t.clone()) else {
                return;
            };
            plains.push(p);
        }
    }
    ctx.outcome("short programs x architectures", plains.len() as u64);
    // every sequence of ways to drive the first cycles, the rest by stepping
    let len = ctx.pick(5, 6);
    let n = DRIVES.len().pow(len as u32);
    let chunk = 64;
    let per = n.div_ceil(chunk);
    ctx.par(plains.len() * per, |u| {
        let p = &plains[u / per];
        for i in (u % per) * chunk..((u % per + 1) * chunk).min(n) {
            let mut w = vec![];
            word(i, DRIVES.len(), len, &mut w);
            // shorter programs: only the distinct prefixes
            if p.trace.len() < len && w[p.trace.len()..].iter().any(|k| *k != 0) {
                continue;
            }
            let how = || {
                w.iter()
                    .take(p.trace.len())
                    .map(|k| format!("{:?}", DRIVES[*k]))
                    .collect::<Vec<_>>()
                    .join(" ")
            };
            ctx.begin(|| json!({"arch": p.arch, "program": p.what, "driven": how()}));
            let r = guard(|| {
                let mut d = Driven::new(p, false);
                for c in 0..p.trace.len() {
                    d.cycle(p, *w.get(c).map_or(&Drive::Step, |k| &DRIVES[*k]))?;
                }
                if p.trace.last().is_some_and(|s| s.term) {
                    d.beyond(p, &[0, 1, 0, 1])?;
                }
                Ok(())
            });
            let r = r.unwrap_or_else(|e| Err(format!("crashed: {e}")));
            if let Err(e) = r {
                viol(ctx, p, how(), e);
                return;
            }
            ctx.add(p.trace.len() as u64, p.trace.len() as u64, 1);
        }
    });
    if ctx.stopped() {
        return;
    }
    // every sequence of operations after the end
    let progs = ends();
    let len = ctx.pick(6, 8);
    let n = 3usize.pow(len as u32);
    ctx.par(progs.len() * 3, |u| {
        let (t, m) = &progs[u / 3];
        let Some(p) = try_plain(ctx, ARCHS[u % 3], *m, 60, t.clone()) else {
            return;
        };
        if !p.trace.last().is_some_and(|s| s.term) {
            return;
        }
        for i in 0..n {
            let mut w = vec![];
            word(i, 3, len, &mut w);
            let r = guard(|| {
                let mut d = Driven::new(&p, false);
                let ways = [Drive::Step, Drive::Edge, Drive::Split];
                for _ in 0..p.trace.len() {
                    d.cycle(&p, ways[i % 3])?;
                }
                d.beyond(&p, &w)
            });
            if let Err(e) = r.unwrap_or_else(|e| Err(format!("crashed: {e}"))) {
                viol(ctx, &p, format!("{} after the end", after(&w)), e);
                return;
            }
            ctx.add((p.trace.len() + len) as u64, len as u64, 1);
        }
        ctx.outcome("programs driven on after their end", 1);
    });
    if ctx.stopped() {
        return;
    }
    // long programs, periodic patterns, printing on and off
    let mut longs = vec![];
    let mut fams = single(&mined(), false);
    fams.extend(hazards::single_producer());
    fams.extend(hazards::branches(false));
    fams.extend(hazards::returns(false));
    for f in &fams {
        let want = ctx.pick(400, 4000);
        let mut b = Batch::new();
        for i in (0..f.n).step_by((f.n / want).max(1)) {
            if let Some(s) = (f.get)(i) {
                if b.try_add(&s) == crate::batch::Add::Full || b.steps() > 1200 {
                    longs.push((format!("batch of {}", f.name), *b.img));
                    b = Batch::new();
                    b.try_add(&s);
                }
            }
        }
        longs.push((format!("batch of {}", f.name), *b.img));
    }
    longs.push(("loop".into(), Image::new(&counted(400)).load()));
    let patterns: Vec<Vec<Drive>> = {
        use Drive::*;
        vec![
            vec![Split],
            vec![Edge],
            vec![StepLook],
            vec![Step, Edge],
            vec![Edge, Edge, Split],
            vec![Split, Step, StepLook],
            vec![Edge, Step, Split, StepLook, Edge],
        ]
    };
    ctx.outcome("long programs x architectures", longs.len() as u64 * 3);
    ctx.par(longs.len() * 3, |u| {
        let (t, m) = &longs[u / 3];
        let Some(p) = try_plain(ctx, ARCHS[u % 3], *m, 2500, t.clone()) else {
            return;
        };
        for (pi, pat) in patterns.iter().enumerate() {
            for tty in [false, true] {
                if tty && pi > 1 && pi != 5 {
                    continue;
                }
                ctx.begin(|| json!({"arch": p.arch, "program": p.what, "pattern": pi}));
                let mut pat = pat.clone();
                if tty {
                    pat.push(Drive::Step);
                }
                // printing runs evaluate the log records as well, as verbose runs of the tools do
                let go = || guard(|| {
                    let mut d = Driven::new(&p, tty);
                    for c in 0..p.trace.len() {
                        d.cycle(&p, pat[c % pat.len()])?;
                    }
                    if p.trace.last().is_some_and(|s| s.term) {
                        d.beyond(&p, &[0, 1, 0])?;
                    }
                    Ok(())
                });
                let r = if tty && pi > 0 { logged(go) } else { go() };
                if let Err(e) = r.unwrap_or_else(|e| Err(format!("crashed: {e}"))) {
                    viol(ctx, &p, format!("{pat:?} repeatedly, printing {tty}"), e);
                    return;
                }
                ctx.add(p.trace.len() as u64, p.trace.len() as u64, 1);
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    // printing, short programs: printing simulators driven in every way
    ctx.par(plains.len(), |u| {
        let p = &plains[u];
        for (d, how) in DRIVES.iter().flat_map(|d| (0..3).map(move |h| (*d, h))) {
            ctx.begin(|| json!({"arch": p.arch, "program": p.what, "printing": how < 2, "logging": how > 0}));
            let go = || guard(|| {
                let mut x = Driven::new(p, how < 2);
                for _ in 0..p.trace.len() {
                    x.cycle(p, d)?;
                }
                Ok(())
            });
            let r = if how > 0 { logged(go) } else { go() };
            if let Err(e) = r.unwrap_or_else(|e| Err(format!("crashed: {e}"))) {
                viol(ctx, p, format!("{d:?}, {}", ["printing", "printing and logging", "logging"][how]), e);
                return;
            }
            ctx.add(p.trace.len() as u64, p.trace.len() as u64, 1);
        }
    });
    // two simulators: every interleaving of their first cycles
    let half = ctx.pick(5, 6);
    let sched: Vec<u32> = (0..1u32 << (2 * half))
        .filter(|x| x.count_ones() == half)
        .collect();
    ctx.outcome("schedules of two simulators", sched.len() as u64);
    let np = plains.len();
    let pick: Vec<usize> = (0..np).filter(|i| plains[*i].trace.len() >= 4).collect();
    let sel: Vec<usize> = pick
        .iter()
        .copied()
        .step_by((pick.len() / ctx.pick(9, 18)).max(1))
        .collect();
    ctx.par(sel.len() * sel.len(), |u| {
        let (a, b) = (&plains[sel[u / sel.len()]], &plains[sel[u % sel.len()]]);
        for &s in &sched {
            ctx.begin(|| json!({"first": a.what, "second": b.what, "schedule": format!("{s:b}")}));
            let r = guard(|| {
                // the second one is created when it is first needed
                let mut x = Driven::new(a, false);
                let mut y: Option<Driven> = None;
                for k in 0..2 * half {
                    if s >> k & 1 == 1 {
                        if x.n < a.trace.len() {
                            x.cycle(a, DRIVES[(k % 4) as usize])?;
                        }
                    } else {
                        let y = y.get_or_insert_with(|| Driven::new(b, false));
                        if y.n < b.trace.len() {
                            y.cycle(b, DRIVES[(k / 4 % 4) as usize])?;
                        }
                    }
                }
                drop(y);
                while x.n < a.trace.len() {
                    x.cycle(a, Drive::Step)?;
                }
                Ok(())
            });
            if let Err(e) = r.unwrap_or_else(|e| Err(format!("crashed: {e}"))) {
                viol(
                    ctx,
                    a,
                    format!("schedule {s:b} together with {} {}", b.arch, b.what),
                    e,
                );
                return;
            }
            ctx.add(2 * half as u64, 2 * half as u64, 1);
        }
    });
    ctx.sample(
        json!({"short programs": progs.iter().take(4).map(|p| p.0.clone()).collect::<Vec<_>>()}),
    );
    ctx.assume("a step between propagating and the clock edge, and what a stopped machine computes, are outside (documented as undefined)");
}

// ---------------------------------------------------------------- C26

const LIMIT: u64 = 3_000_000;

/// What the tester must say: the final states if it accepts.
struct Verdict {
    regs: Vec<u64>,
    mem: Box<Mem>,
    accept: Result<(), &'static str>,
}

fn verdict(arch: &str, src: &str) -> Option<Verdict> {
    let refuse = |w| {
        Some(Verdict {
            regs: vec![],
            mem: Box::new([0; MEM]),
            accept: Err(w),
        })
    };
    let Ok(obj) = y86_sim::assemble(src, Default::default()) else {
        return refuse("does not assemble");
    };
    let img = obj.obj.init_mem();
    // the reference decides whether the ISA simulator comes to an end at all
    let mut rm = Box::new(img);
    let mut r = Machine::default();
    r.run(&mut rm, 8_000_000);
    if r.stat == Stat::Aok {
        return None;
    }
    let Ok(ans) = y86_sim::isa::simulate(img, false) else {
        return refuse("the ISA simulator fails");
    };
    let mem = MemData::init(img);
    let mut s = create_sim(arch.into(), mem.clone(), false);
    while !s.is_terminate() {
        if s.cycle_count() >= LIMIT {
            return refuse("the architecture does not stop within the limit");
        }
        s.step();
    }
    if ans.regs[..] != s.registers()[..] {
        return refuse("registers differ");
    }
    if ans.bin[..] != mem.read()[..] {
        return refuse("memory differs");
    }
    Some(Verdict {
        regs: ans.regs.to_vec(),
        mem: Box::new(ans.bin),
        accept: Ok(()),
    })
}

fn tester(ctx: &Ctx, arch: &'static str, src: &str) {
    ctx.begin(|| json!({"arch": arch, "source": src}));
    let bad = |e: String| {
        ctx.violation(Viol::new(
            e,
            format!("{arch}:{}", src.chars().take(300).collect::<String>()),
            json!({"arch": arch, "source": src}),
        ));
    };
    let v = match guard(|| verdict(arch, src)) {
        Ok(Some(v)) => v,
        Ok(None) => {
            ctx.skipped
                .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        // crashes of the simulators themselves belong to other properties
        Err(_) => {
            ctx.skipped
                .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            return;
        }
    };
    let Some(t) = SimTester::new(arch) else {
        return bad(format!("no tester for {arch}"));
    };
    let r = match guard(|| t.test_isa(src)) {
        Ok(r) => r,
        Err(e) => return bad(format!("the tester crashed: {e}")),
    };
    ctx.add(1, 1, 1);
    match (&v.accept, r) {
        (Err(w), Ok(_)) => bad(format!("the tester accepts although {w}")),
        (Ok(()), Err(e)) => bad(format!(
            "the tester refuses ({e}) although processor and ISA agree"
        )),
        (Err(w), Err(_)) => ctx.outcome(&format!("refused: {w}"), 1),
        (Ok(()), Ok(t)) => {
            ctx.outcome("accepted", 1);
            if t.answer.regs[..] != v.regs[..] || t.sim.registers()[..] != v.regs[..] {
                return bad("the registers handed back are not the final ones".into());
            }
            if t.answer.bin[..] != v.mem[..] || t.mem.read()[..] != v.mem[..] {
                return bad("the memory handed back is not the final one".into());
            }
            if !t.sim.is_terminate() {
                bad("the simulator handed back has not terminated".into());
            }
        }
    }
}

pub fn c26(ctx: &Arc<Ctx>) {
    let r = silenced(|| guard(|| testers(ctx)));
    if let Err(e) = r {
        panic!("{e}");
    }
}

fn testers(ctx: &Arc<Ctx>) {
    // the tester exists exactly for the architectures
    for n in arch_names() {
        if SimTester::new(n).is_none() {
            ctx.violation(Viol::new(format!("no tester for {n}"), n, json!(n)));
        }
    }
    for n in [
        "",
        "seq",
        "SEQ_STD",
        "seq_std ",
        "pipe",
        "pipe_std2",
        "seq_plus",
    ] {
        if !arch_names().contains(&n) && SimTester::new(n).is_some() {
            ctx.violation(Viol::new(
                format!("a tester for the unknown architecture {n:?}"),
                n,
                json!(n),
            ));
        }
    }
    // small programs
    let mut srcs: Vec<String> = vec![
        "".into(),
        "halt".into(),
        "nop".into(),
        "hult".into(),
        "halt\nirmovq 5, %rax".into(),
        "irmovq $5, %rax\n.pos 0xffff\n.quad 1".into(),
        ".byte 0xf0".into(),
        "jmp nowhere".into(),
        "L: call L2\nL2: halt\n%rax".into(),
        "iaddq $1, %rax\nhalt".into(),
        "iaddq $0, %rax\nhalt".into(),
        ".byte 0x20\n.byte 0x0f\nhalt".into(),
        ".byte 0x30\n.byte 0xff\n.quad 7\nhalt".into(),
        ".byte 0x50\n.byte 0xff\n.quad 0\nhalt".into(),
        ".byte 0x21\n.byte 0x00\nhalt".into(),
        ".byte 0x27\n.byte 0x03\nhalt".into(),
        ".byte 0x77\n.quad 0\nhalt".into(),
        ".byte 0x64\n.byte 0x03\nhalt".into(),
        ".byte 0x01".into(),
        ".byte 0x11\nhalt".into(),
    ];
    // all pairs of instructions from an alphabet with agreement, faults and extensions
    let al: Vec<Vec<I>> = vec![
        vec![I::Nop],
        vec![I::Halt],
        vec![ir(1, RAX)],
        vec![ir(0x100, RSP)],
        vec![I::Push(RAX)],
        vec![I::Pop(RBX)],
        vec![I::Ret],
        vec![I::Call(T::L(0))],
        vec![I::J(3, T::L(0))],
        vec![I::Op(0, RAX, RAX)],
        vec![I::Op(1, RAX, RBX)],
        vec![I::St(RAX, 0x200, RBX)],
        vec![I::St(RAX, 0x10000, RBX)],
        vec![I::Ld(0x200, RBX, RCX)],
        vec![I::Ld(0xfff9, RBX, RCX)],
        vec![I::Iop(0, 1, RAX)],
        vec![I::Iop(0, 0, RAX)],
        vec![I::Iop(1, 1, RSP)],
        vec![I::Iop(2, 3, RBX)],
        vec![I::Iop(3, 0xff, RDX)],
        vec![I::Cmov(3, RAX, RCX)],
        vec![I::Raw(vec![0xd0])],
        vec![I::St(RAX, 0, RBX)],
    ];
    let len = ctx.pick(3, 4);
    for l in 1..=len {
        for i in 0..al.len().pow(l) {
            let mut w = vec![];
            word(i, al.len(), l as usize, &mut w);
            let mut p: Vec<I> = w.iter().flat_map(|k| al[*k].clone()).collect();
            p.extend([I::Lab(0), I::Halt]);
            srcs.push(source_of(&p));
        }
    }
    ctx.outcome("small programs x architectures", srcs.len() as u64 * 3);
    ctx.sample(json!({"source": srcs[srcs.len() / 2]}));
    let chunk = 32;
    ctx.par(srcs.len().div_ceil(chunk) * 3, |u| {
        for s in &srcs[u / 3 * chunk..((u / 3 + 1) * chunk).min(srcs.len())] {
            tester(ctx, ARCHS[u % 3], s);
            if ctx.stopped() {
                return;
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    // the two sides differ in exactly one bit of one register
    ctx.outcome("register x bit", 15 * 64);
    ctx.par(15 * 64 * 3, |u| {
        let (r, b) = ((u / 3 / 64) as u8, u / 3 % 64);
        let s = source_of(&[ir(0x33, RAX), ir(0x44, 14), I::Iop(3, 1 << b, r), I::Halt]);
        tester(ctx, ARCHS[u % 3], &s);
    });
    // in exactly one byte of memory, at every address (iaddq $0 stops the architectures before the store)
    let low = 0x80u64;
    ctx.outcome("memory byte", MEM as u64);
    let step = 24;
    ctx.par(MEM.div_ceil(step), |u| {
        for a in (u * step..((u + 1) * step).min(MEM)).map(|a| a as u64) {
            if a < 9 {
                continue;
            }
            // the word that is stored begins at or before the byte
            let at = a.min(MEM as u64 - 8);
            let v = 0x5au64 << (8 * (a - at));
            let base = if a < 0x400 { 0x4000 } else { low };
            let body = format!("    irmovq ${v:#x}, %rdx\n    irmovq ${at:#x}, %rbx\n    iaddq $0, %rcx\n    rmmovq %rdx, (%rbx)\n    halt\n");
            let s = format!("    jmp go\n    .pos {base:#x}\ngo:\n{body}");
            tester(ctx, ARCHS[(a % 3) as usize], &s);
            if ctx.stopped() {
                return;
            }
        }
    });
    if ctx.stopped() {
        return;
    }
    // families of agreeing programs
    let mut fams = single(&mined(), true);
    fams.extend(hazards::single_producer());
    fams.extend(hazards::branches(false));
    fams.extend(hazards::returns(false));
    for f in &fams {
        let want = ctx.pick(1500, 20000);
        let st = (f.n / want).max(1);
        ctx.par(f.n.div_ceil(st), |k| {
            let Some(mut s) = (f.get)(k * st) else { return };
            s.push(I::Halt);
            // jumps to numbers are spelled as bytes by source_of
            tester(ctx, ARCHS[k % 3], &source_of(&s));
        });
        if ctx.stopped() {
            return;
        }
    }
    // around the limit
    let mut near: Vec<(&'static str, u64)> = vec![];
    for d in [-3i64, -1, 0, 1, 2, 50] {
        near.push(("seq_std", (LIMIT as i64 + d) as u64));
        near.push(("seq_plus_std", (LIMIT as i64 + d) as u64));
    }
    for d in [-200i64, 0, 1, 300] {
        near.push(("pipe_std", (LIMIT as i64 + d) as u64));
    }
    ctx.hang_secs
        .store(240, std::sync::atomic::Ordering::Relaxed);
    ctx.outcome("programs around the cycle limit", near.len() as u64);
    ctx.par(near.len(), |i| {
        let (a, k) = near[i];
        let p = if a == "pipe_std" {
            pipe_counted(k)
        } else {
            counted(k)
        };
        tester(ctx, a, &source_of(&p));
    });
    ctx.assume("programs on which the ISA simulator itself never ends are outside");
}

/// A program that the pipelined processor finishes in exactly k cycles: a loop of two instructions, taken jumps.
fn pipe_counted(k: u64) -> Vec<I> {
    // n iterations of (sub, jne taken), the last jump mispredicted (2 cycles), halt, 4 cycles to drain
    let fixed = 2 + 2 + 1 + 4;
    let n = (k - fixed) / 2;
    let pad = k - fixed - 2 * n;
    let mut p = vec![ir(n, RBX), ir(1, RCX)];
    p.extend(vec![I::Nop; pad as usize]);
    p.extend([I::Lab(0), I::Op(1, RCX, RBX), I::J(4, T::L(0)), I::Halt]);
    p
}
