//! Lockstep comparison of the circuit simulators with the reference model.
use crate::common::*;
use crate::prog::*;
use crate::refisa::*;
use y86_sim::architectures::create_sim;
use y86_sim::framework::{CpuSim, MemData};

pub const SEQS: [&str; 2] = ["seq_std", "seq_plus_std"];
pub const ARCHS: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];

pub struct Sim {
    pub sim: Box<dyn CpuSim>,
    pub mem: MemData,
}

pub fn new_sim(arch: &str, m: &Mem) -> Sim {
    let mem = MemData::init(*m);
    let sim = create_sim(arch.to_string(), mem.clone(), false);
    Sim { sim, mem }
}

impl Sim {
    pub fn signal(&self, names: &[&str]) -> Option<String> {
        for st in self.sim.get_stage_info() {
            for (n, v) in st.signals {
                if names.contains(&n.as_str()) {
                    return Some(v);
                }
            }
        }
        None
    }
    pub fn stat(&self) -> Option<Stat> {
        match self.signal(&["prog_stat", "stat"])?.as_str() {
            "Aok" | "Bub" => Some(Stat::Aok),
            "Hlt" => Some(Stat::Hlt),
            "Adr" => Some(Stat::Adr),
            "Ins" => Some(Stat::Ins),
            _ => None,
        }
    }
    pub fn cc(&self) -> Option<Cc> {
        find_cc(self.sim.get_stage_info().iter().flat_map(|x| &x.signals))
    }
}

/// The condition codes among the signals: by name, else by the form of the value.
pub fn find_cc<'a>(sigs: impl Iterator<Item = &'a (String, String)> + Clone) -> Option<Cc> {
    let mut s = sigs.clone();
    match s.find(|x| x.0 == "cc").and_then(|x| parse_cc(&x.1)) {
        Some(c) => Some(c),
        None => sigs.clone().find_map(|x| parse_cc(&x.1)),
    }
}

/// "ConditionCode { sf: true, of: false, zf: false }"
pub fn parse_cc(s: &str) -> Option<Cc> {
    let get = |k: &str| {
        let i = s.find(k)? + k.len();
        let r = s[i..].trim_start();
        if r.starts_with("true") {
            Some(true)
        } else if r.starts_with("false") {
            Some(false)
        } else {
            None
        }
    };
    Some(Cc {
        sf: get("sf:")?,
        of: get("of:")?,
        zf: get("zf:")?,
    })
}

pub fn regs_str(r: &[u64; 16]) -> String {
    let mut s = String::new();
    for i in 0..15 {
        if r[i] != 0 {
            s += &format!("{}={:#x} ", REGN[i], r[i]);
        }
    }
    s
}

pub fn diff_regs(want: &[u64; 16], got: &[u64; 16], except: [u8; 2]) -> Option<String> {
    for i in 0..15 {
        if want[i] != got[i] && !except.contains(&(i as u8)) {
            return Some(format!(
                "{} is {:#x}, should be {:#x}",
                REGN[i], got[i], want[i]
            ));
        }
    }
    None
}

pub fn diff_mem(want: &Mem, got: &Mem) -> Option<String> {
    if want[..] == got[..] {
        return None;
    }
    let i = (0..MEM).find(|&i| want[i] != got[i]).unwrap();
    Some(format!(
        "memory[{i:#x}] is {:#04x}, should be {:#04x}",
        got[i], want[i]
    ))
}

#[derive(Default, Clone)]
pub struct Opts {
    /// compare the cc signal after every arithmetic instruction (seq) / at the end
    pub cc_ops: bool,
    /// compare all of memory in every cycle
    pub deep_mem: bool,
    /// check the status signal at the stop
    pub stat: bool,
    /// check the total cycle count
    pub timing: bool,
    /// allow the run to end without stop (cycle bound)
    pub open: bool,
    /// after the stop of a fault: unconstrained destinations
    pub quiet_dst: bool,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct RunStat {
    pub cycles: u64,
    pub insts: u64,
    pub states: u64,
    pub stop: Option<Stat>,
    pub cycle_time: u64,
}

/// Lockstep of a sequential architecture: one instruction per cycle.
pub fn run_seq(arch: &str, m0: &Mem, max: u64, o: &Opts) -> Result<RunStat, String> {
    let mut rm = *m0;
    let mut r = Machine::no_iopq();
    let mut s = new_sim(arch, m0);
    let mut st = RunStat::default();
    for c in 1..=max {
        let e = r.step(&mut rm);
        s.sim.step();
        st.cycles = c;
        st.insts = r.n;
        st.states += 1;
        let at = || {
            format!(
                "{arch} cycle {c}, instruction at {:#x} ({:02x}): ",
                e.pc,
                if e.pc < MEM as u64 {
                    m0[e.pc as usize]
                } else {
                    0
                }
            )
        };
        if s.sim.program_counter() != e.pc {
            return Err(at() + &format!("program counter is {:#x}", s.sim.program_counter()));
        }
        if s.sim.cycle_count() != c {
            return Err(at() + &format!("cycle count is {}", s.sim.cycle_count()));
        }
        if s.sim.is_terminate() != (e.stat != Stat::Aok) {
            return Err(at()
                + &format!(
                    "terminated = {}, should be {:?}",
                    s.sim.is_terminate(),
                    e.stat
                ));
        }
        let faulted = !matches!(e.stat, Stat::Aok | Stat::Hlt);
        let except = if faulted {
            [e.dst_e, e.dst_m]
        } else {
            [15, 15]
        };
        if let Some(d) = diff_regs(&r.regs, &s.sim.registers(), except) {
            return Err(at() + &d);
        }
        if let Some((a, _)) = e.store {
            let g = rd8(&s.mem.read(), a);
            let w = rd8(&rm, a);
            if g != w {
                return Err(at() + &format!("stored {g:#x} at {a:#x}, should be {w:#x}"));
            }
        }
        if o.deep_mem {
            if let Some(d) = diff_mem(&rm, &s.mem.read()) {
                return Err(at() + &d);
            }
        }
        let is_op = e.dec.is_some_and(|d| d.icode == 6);
        if o.cc_ops && is_op {
            if let Some(cc) = s.cc() {
                if cc != r.cc {
                    return Err(at() + &format!("condition codes are {cc:?}, should be {:?}", r.cc));
                }
            }
        }
        if e.stat != Stat::Aok {
            st.stop = Some(e.stat);
            if let Some(d) = diff_mem(&rm, &s.mem.read()) {
                return Err(at() + &d);
            }
            if let Some(cc) = s.cc() {
                if cc != r.cc {
                    return Err(at()
                        + &format!(
                            "condition codes are {cc:?} at the stop, should be {:?}",
                            r.cc
                        ));
                }
            }
            if o.stat {
                if let Some(x) = s.stat() {
                    if x != e.stat {
                        return Err(at() + &format!("status is {x:?}, should be {:?}", e.stat));
                    }
                }
            }
            return Ok(st);
        }
    }
    if let Some(d) = diff_mem(&rm, &s.mem.read()) {
        return Err(format!("{arch} after {max} cycles: {d}"));
    }
    Ok(st)
}

#[derive(Clone, Copy)]
pub struct Ev {
    pub pc: u64,
    pub r1: (u8, u64),
    pub r2: (u8, u64),
    pub store: Option<(u64, u64)>,
}

pub struct RefRun {
    pub evs: Vec<Ev>,
    pub last: Machine,
    pub mem: Box<Mem>,
    pub cost: u64,
    pub smod: bool,
    pub exc: [u8; 2],
    pub odd: bool,
    pub loaduse: u64,
    pub mispred: u64,
    pub rets: u64,
}

/// Execute the reference, recording effects, timing cost and self-modification.
pub fn ref_run(m0: &Mem, max: u64, iopq: bool) -> RefRun {
    let mut mem = Box::new(*m0);
    let mut r = Machine {
        iopq,
        ..Default::default()
    };
    let mut evs = Vec::new();
    let mut code = vec![0u64; MEM / 64];
    let mut wr = vec![0u64; MEM / 64];
    let mut smod = false;
    let mut odd = false;
    let (mut loaduse, mut mispred, mut rets) = (0, 0, 0);
    let mut prev_m = 15u8;
    let mut exc = [15, 15];
    while r.stat == Stat::Aok && r.n < max {
        let before = r.regs;
        let e = r.step(&mut mem);
        if let Some(d) = e.dec {
            if d.enc == Enc::Odd {
                odd = true;
            }
            for b in e.pc..e.pc + d.len {
                let (w, k) = ((b / 64) as usize, b % 64);
                if wr[w] >> k & 1 == 1 {
                    smod = true;
                }
                code[w] |= 1 << k;
            }
            if prev_m != 15 && e.srcs.contains(&prev_m) {
                loaduse += 1;
            }
            if d.icode == 7 && d.ifun != 0 && !e.taken {
                mispred += 1;
            }
            if d.icode == 9 {
                rets += 1;
            }
        }
        if let Some((a, _)) = e.store {
            for b in a..a + 8 {
                let (w, k) = ((b / 64) as usize, b % 64);
                if code[w] >> k & 1 == 1 {
                    smod = true;
                }
                wr[w] |= 1 << k;
            }
        }
        prev_m = if e.stat == Stat::Aok { e.dst_m } else { 15 };
        let mut ev = Ev {
            pc: e.pc,
            r1: (15, 0),
            r2: (15, 0),
            store: e.store.map(|(a, _)| (a, rd8(&mem, a))),
        };
        for i in 0..15u8 {
            if before[i as usize] != r.regs[i as usize] {
                if ev.r1.0 == 15 {
                    ev.r1 = (i, r.regs[i as usize]);
                } else {
                    ev.r2 = (i, r.regs[i as usize]);
                }
            }
        }
        if !matches!(e.stat, Stat::Aok | Stat::Hlt) {
            exc = [e.dst_e, e.dst_m];
        }
        evs.push(ev);
    }
    let cost = r.n + 4 + loaduse + 2 * mispred + 3 * rets;
    RefRun {
        evs,
        last: r,
        mem,
        cost,
        smod,
        exc,
        odd,
        loaduse,
        mispred,
        rets,
    }
}

/// The pipeline: in every cycle registers and memory equal a prefix of the reference execution.
pub fn run_pipe(arch: &str, m0: &Mem, rr: &RefRun, o: &Opts) -> Result<RunStat, String> {
    let mut s = new_sim(arch, m0);
    let mut st = RunStat::default();
    let mut cur = [0u64; 16];
    let mut k = 0usize;
    let mut j = 0usize; // next event whose store is pending
    let mut deep: Option<Box<Mem>> = o.deep_mem.then(|| Box::new(*m0));
    let limit = rr.cost * 2 + 50;
    let open = rr.last.stat == Stat::Aok;
    let mut c = 0;
    loop {
        s.sim.step();
        c += 1;
        st.states += 1;
        let at = |k: usize| {
            format!(
                "{arch} cycle {c} (about instruction #{k} at {:#x}): ",
                rr.evs.get(k).map(|e| e.pc).unwrap_or(0)
            )
        };
        if s.sim.cycle_count() != c {
            return Err(at(k) + &format!("cycle count is {}", s.sim.cycle_count()));
        }
        let term = s.sim.is_terminate();
        let g = s.sim.registers();
        let mut except = [15u8; 2];
        if term {
            except = rr.exc;
        }
        let k0 = k;
        let first = diff_regs(&cur, &g, except);
        if let Some(first) = first {
            let mut changes = 0;
            loop {
                if k >= rr.evs.len() {
                    return Err(at(k0) + &format!("register file is not a state of the sequential execution: {first} (or a later state)"));
                }
                let e = &rr.evs[k];
                k += 1;
                if e.r1.0 != 15 {
                    cur[e.r1.0 as usize] = e.r1.1;
                }
                if e.r2.0 != 15 {
                    cur[e.r2.0 as usize] = e.r2.1;
                }
                if (e.r1.0 != 15) && diff_regs(&cur, &g, except).is_none() {
                    break;
                }
                changes += (e.r1.0 != 15) as u32;
                if changes > 8 {
                    return Err(at(k0)
                        + &format!(
                            "register file is not a state of the sequential execution: {first}"
                        ));
                }
            }
        }
        if let Some(d) = &mut deep {
            let m = s.mem.read();
            let mut tries = 0;
            while diff_mem(d, &m).is_some() {
                while j < rr.evs.len() && rr.evs[j].store.is_none() {
                    j += 1;
                }
                if j >= rr.evs.len() || tries > 2 {
                    return Err(at(k)
                        + &format!(
                            "memory is not a state of the sequential execution: {}",
                            diff_mem(d, &m).unwrap()
                        ));
                }
                let (a, v) = rr.evs[j].store.unwrap();
                d[a as usize..a as usize + 8].copy_from_slice(&v.to_le_bytes());
                j += 1;
                tries += 1;
            }
        }
        if term {
            break;
        }
        if open && c > rr.last.n / 2 + 10 {
            break;
        }
        if c > limit {
            return Err(at(k) + "does not stop, the sequential execution has stopped");
        }
    }
    st.cycles = c;
    st.insts = rr.last.n;
    st.cycle_time = s.sim.cycle_cost();
    if open {
        if s.sim.is_terminate() {
            return Err(format!(
                "{arch} stopped in cycle {c}, the sequential execution runs on"
            ));
        }
        return Ok(st);
    }
    st.stop = Some(rr.last.stat);
    let at = format!("{arch} stopped after {c} cycles: ");
    if let Some(d) = diff_regs(&rr.last.regs, &s.sim.registers(), rr.exc) {
        return Err(at + &d);
    }
    if let Some(d) = diff_mem(&rr.mem, &s.mem.read()) {
        return Err(at + &d);
    }
    if let Some(cc) = s.cc() {
        if cc != rr.last.cc {
            return Err(at + &format!("condition codes are {cc:?}, should be {:?}", rr.last.cc));
        }
    }
    if o.stat {
        if let Some(x) = s.stat() {
            if x != rr.last.stat {
                return Err(at + &format!("status is {x:?}, should be {:?}", rr.last.stat));
            }
        }
    }
    if o.timing && rr.last.stat == Stat::Hlt && c != rr.cost {
        return Err(at
            + &format!(
            "should take {} cycles ({} instructions + 4, {} load/use, {} mispredicted, {} returns)",
            rr.cost, rr.last.n, rr.loaduse, rr.mispred, rr.rets
        ));
    }
    Ok(st)
}

/// Compare one image on one architecture with the reference.
pub fn run_any(arch: &str, m0: &Mem, max: u64, o: &Opts) -> Result<RunStat, String> {
    let r = guard(|| {
        if arch == "pipe_std" {
            let rr = ref_run(m0, max, false);
            if rr.smod {
                return Ok(RunStat::default());
            }
            run_pipe(arch, m0, &rr, o)
        } else {
            run_seq(arch, m0, max, o)
        }
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("{arch} crashed: {p}")),
    }
}
