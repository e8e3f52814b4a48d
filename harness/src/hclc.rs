//! C12: HCL definitions, C13: pipeline registers. The architectures are compiled into the simulator crate
//! (hook/gen.rs, cfg y86_verif) and run in lockstep with the reference interpreter of their text (refhcl.rs).
use crate::common::*;
use crate::refhcl::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;
use y86_sim::architectures::verif;
use y86_sim::framework::MemData;

/// A fresh memory without 64 KiB on the stack of every caller.
pub fn zero_mem() -> MemData {
    MemData::init([0; 1 << 16])
}

pub fn parse_val(s: &str) -> Option<V> {
    Some(match s {
        "true" => V::B(true),
        "false" => V::B(false),
        _ => V::N(match s.strip_prefix("0x") {
            Some(h) => u64::from_str_radix(h, 16).ok()?,
            None => s.parse().ok()?,
        }),
    })
}

fn write_env(m: &MemData, e: &Env) {
    let mut w = m.write();
    for i in 0..4 {
        w[i] = e.b[i] as u8;
    }
    w[4..7].copy_from_slice(&e.x);
    w[8..16].copy_from_slice(&e.u[0].to_le_bytes());
    w[16..24].copy_from_slice(&e.u[1].to_le_bytes());
}

pub fn env_json(e: &Env) -> Value {
    json!({"p,q,r,s": e.b, "x,y,z": e.x, "u,v": e.u})
}

/// An implementation and its reference, run in lockstep.
pub struct Pair<'a> {
    name: String,
    sim: Box<dyn verif::Watch>,
    mem: MemData,
    pub m: Machine<'a>,
    index: HashMap<String, usize>,
    term: bool,
    cycles: u64,
    /// the last few environments
    hist: std::collections::VecDeque<Env>,
    use_step: bool,
}

impl<'a> Pair<'a> {
    pub fn new(name: &str, hw: &str, h: &'a Hcl, use_step: bool) -> Result<Pair<'a>, String> {
        let mem = zero_mem();
        let sim = guard(|| verif::create(name, mem.clone(), &mut |_| {}))
            .map_err(|e| format!("building architecture {name}: {e}"))?
            .expect("name");
        Ok(Pair {
            name: name.into(),
            sim,
            mem,
            m: Machine::new(h, hw),
            index: h
                .signals
                .iter()
                .enumerate()
                .map(|(i, s)| (s.name.clone(), i))
                .collect(),
            term: false,
            cycles: 0,
            hist: Default::default(),
            use_step,
        })
    }
    fn err(&self, what: String) -> Viol {
        let key = format!("{}/{}", self.name, what.split(" is ").next().unwrap_or(""));
        Viol::new(
            format!(
                "architecture {} of hook/gen.rs, cycle {}: {what}",
                self.name, self.cycles
            ),
            key,
            json!({"architecture": self.name, "text": verif::NAMES.iter().find(|n| n.0 == self.name).map(|n| n.3), "cycle": self.cycles, "last_environments": self.hist.iter().map(env_json).collect::<Vec<_>>()}),
        )
    }
    /// One cycle. With `step` the clock edge is part of it.
    pub fn cycle(&mut self, e: Env) -> Result<Vec<usize>, Viol> {
        self.hist.push_back(e);
        if self.hist.len() > 6 {
            self.hist.pop_front();
        }
        self.cycles += 1;
        write_env(&self.mem, &e);
        let use_step = self.use_step;
        let sim = &mut self.sim;
        if let Err(p) = guard(|| {
            if use_step {
                sim.step()
            } else {
                sim.propagate_signals()
            }
        }) {
            return Err(self.err(format!("panic {p}")));
        }
        let sink = self.m.propagate(e);
        let mut seen = 0;
        for st in self.sim.get_stage_info() {
            for (n, v) in &st.signals {
                let Some(&i) = self.index.get(n) else {
                    return Err(self.err(format!("unknown signal {n} is shown")));
                };
                seen += 1;
                if parse_val(v) != self.m.vals[i] {
                    let want = self.m.vals[i];
                    return Err(self.err(format!("signal {n} is {v}, should be {want:?}")));
                }
            }
        }
        if seen != self.m.vals.len() {
            return Err(self.err(format!(
                "{seen} signals shown, {} defined",
                self.m.vals.len()
            )));
        }
        if let Some((b, y, w)) = sink {
            let g = self.mem.read();
            for (i, x) in b.iter().enumerate() {
                if g[0x100 + i] != *x as u8 {
                    return Err(self.err(format!(
                        "unit input snk.b{i} is {}, should be {x}",
                        g[0x100 + i]
                    )));
                }
            }
            for (i, x) in y.iter().enumerate() {
                if g[0x120 + i] != *x {
                    return Err(self.err(format!(
                        "unit input snk.y{i} is {:#x}, should be {x:#x}",
                        g[0x120 + i]
                    )));
                }
            }
            for (i, x) in w.iter().enumerate() {
                let k = 0x140 + 8 * i;
                let v = u64::from_le_bytes(g[k..k + 8].try_into().unwrap());
                if v != *x {
                    return Err(
                        self.err(format!("unit input snk.w{i} is {v:#x}, should be {x:#x}"))
                    );
                }
            }
            if g[0x200] != self.m.runs as u8 {
                return Err(self.err(format!(
                    "number of runs of unit snk is {} modulo 256, should be {}",
                    g[0x200], self.m.runs as u8
                )));
            }
        }
        let (h, v) = (self.m.h, &self.m.vals);
        let V::N(pc) = v[h.pc].unwrap() else { panic!() };
        if self.sim.program_counter() != pc {
            return Err(self.err(format!(
                "program counter is {:#x}, should be {pc:#x}",
                self.sim.program_counter()
            )));
        }
        self.term |= v[h.term] == Some(V::B(true));
        if self.sim.is_terminate() != self.term {
            return Err(self.err(format!(
                "termination is {}, should be {}",
                self.sim.is_terminate(),
                self.term
            )));
        }
        if self.sim.cycle_count() != self.cycles {
            return Err(self.err(format!(
                "cycle count is {}, should be {}",
                self.sim.cycle_count(),
                self.cycles
            )));
        }
        if !use_step {
            let sim = &mut self.sim;
            if let Err(p) = guard(|| sim.initiate_next_cycle()) {
                return Err(self.err(format!("clock edge: panic {p}")));
            }
        }
        Ok(self.m.tick())
    }
    /// values of the fields of a stage after the clock edge, read from the registers themselves
    pub fn fields(&self, st: &Stage) -> Option<Vec<V>> {
        let (cur, _) = self.sim.stages();
        let all = split_debug(&cur)?;
        let mine = all.iter().find(|x| x.0 == st.name)?;
        let f = split_debug(&mine.1)?;
        st.fields
            .iter()
            .map(|x| f.iter().find(|y| y.0 == x.0).and_then(|y| parse_val(&y.1)))
            .collect()
    }
}

/// `Name { a: 1, b: X { c: 2 } }` into its fields
pub fn split_debug(s: &str) -> Option<Vec<(String, String)>> {
    let a = s.find('{')?;
    let body = s[a + 1..].trim_end().strip_suffix('}')?;
    let mut out = vec![];
    let (mut depth, mut start) = (0, 0);
    let mut push = |t: &str| {
        if let Some((k, v)) = t.split_once(':') {
            out.push((k.trim().to_string(), v.trim().to_string()));
        }
    };
    for (i, c) in body.char_indices() {
        match c {
            '{' | '(' | '[' => depth += 1,
            '}' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                push(&body[start..i]);
                start = i + 1;
            }
            _ => {}
        }
    }
    push(&body[start..]);
    Some(out)
}

fn bools(k: usize) -> [bool; 4] {
    std::array::from_fn(|i| k >> i & 1 == 1)
}

/// valuations of the inputs for the architectures without state
fn valuations(thorough: bool) -> Vec<Env> {
    let mut out = vec![];
    let x: Vec<u8> = if thorough {
        (0..=255).collect()
    } else {
        vec![0, 1, 2, 3, 4, 5, 6, 12, 15, 39, 127, 200, 255]
    };
    let y: &[u8] = &[0, 1, 2, 5, 15, 101, 127, 255];
    let z: &[u8] = if thorough {
        &[0, 1, 2, 3, 15, 254, 255]
    } else {
        &[0, 1, 2, 15, 255]
    };
    for k in 0..16 {
        for &x in &x {
            for &y in y {
                for &z in z {
                    let u = (x as u64).wrapping_mul(0x0101_0101_0101_0101) ^ y as u64;
                    out.push(Env {
                        b: bools(k),
                        x: [x, y, z],
                        u: [u, if k & 1 == 0 { u } else { z as u64 }],
                    });
                }
            }
        }
    }
    let big = [
        0,
        1,
        2,
        16,
        255,
        256,
        257,
        1 << 32,
        1 << 63,
        (1 << 63) + 1,
        u64::MAX - 1,
        u64::MAX,
        1_000_000,
    ];
    for k in 0..16 {
        for &u in &big {
            for &v in &big {
                for x in [[0, 0, 0], [1, 2, 3], [3, 3, 1]] {
                    out.push(Env {
                        b: bools(k),
                        x,
                        u: [u, v],
                    });
                }
            }
        }
    }
    out
}

/// A small alphabet for histories.
fn alphabet(wide: bool) -> Vec<Env> {
    let mut out = vec![];
    for k in 0..16 {
        for (n, x) in [[1u8, 2, 3], [2, 2, 1], [0, 255, 42]].iter().enumerate() {
            if !wide && n != k % 3 {
                continue;
            }
            out.push(Env {
                b: bools(k),
                x: *x,
                u: if n == 1 {
                    [7, 7]
                } else {
                    [u64::MAX - n as u64, n as u64]
                },
            });
        }
    }
    out
}

/// A history that contains every sequence of n letters of an alphabet of k letters (de Bruijn sequence, opened).
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

pub fn accepted(name: &str) -> bool {
    !(name.starts_with("vs") || name.starts_with("vu") || name.starts_with("vm"))
}

pub fn c12(ctx: &Arc<Ctx>) {
    let vals = valuations(true);
    let pieces = 8;
    let archs: Vec<_> = verif::NAMES.iter().filter(|a| accepted(a.0)).collect();
    let hcls: Vec<Hcl> = archs.iter().map(|a| Hcl::parse(a.3, a.2)).collect();
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, _) in archs.iter().enumerate() {
        for k in 0..pieces {
            jobs.push((i, k));
        }
    }
    // architectures with registers first: they take longest
    jobs.sort_by_key(|(i, _)| !archs[*i].2.contains("Stage"));
    let defs: usize = hcls.iter().map(|h| h.signals.len()).sum();
    ctx.par(jobs.len(), |j| {
        let (i, k) = jobs[j];
        let (name, hw, ..) = *archs[i];
        ctx.begin(|| json!({"architecture": name, "piece": k}));
        let stateful = archs[i].2.contains("Stage") || hw != "hw_src";
        let run = |envs: &mut dyn Iterator<Item = Env>, step: bool| -> Result<u64, Viol> {
            let mut p = Pair::new(name, hw, &hcls[i], step).map_err(|e| {
                Viol::new(
                    e,
                    format!("{name}/build"),
                    json!({"architecture": name, "text": archs[i].3}),
                )
            })?;
            let mut n = 0;
            for e in envs {
                let stop = p.term && step;
                if stop {
                    // `step` does not clock a terminated simulator
                    p = Pair::new(name, hw, &hcls[i], step).expect("built before");
                }
                let both = p.cycle(e)?;
                // stall and bubble together: unspecified, start again
                if !both.is_empty() || (p.term && n % 5 == 4) {
                    p = Pair::new(name, hw, &hcls[i], step).expect("built before");
                }
                n += 1;
                if ctx.stopped() {
                    break;
                }
            }
            Ok(n)
        };
        let r = if !stateful {
            run(
                &mut vals.iter().skip(k).step_by(pieces).copied(),
                k % 2 == 1,
            )
        } else {
            let big = name.starts_with('w') || name.starts_with('c');
            let al = alphabet(true);
            let n = if ctx.thorough() && !name.starts_with('w') {
                3
            } else {
                2
            };
            // rotate the alphabet per piece, so that the pieces differ in the order and the start of the history
            let seq = de_bruijn(al.len(), n);
            let len = seq.len();
            let per = len / pieces + n;
            let mut it = seq
                .into_iter()
                .skip(k * (len / pieces))
                .take(per)
                .map(|c| al[c]);
            run(&mut it, k % 2 == 1).and_then(|a| {
                Ok(a + run(
                    &mut vals
                        .iter()
                        .skip(k * 7)
                        .step_by(pieces * if big { 29 } else { 13 })
                        .copied(),
                    k % 2 == 0,
                )?)
            })
        };
        ctx.end();
        match r {
            Ok(n) => {
                ctx.add(n, n, 1);
                ctx.outcome(&format!("architecture {name}"), n);
            }
            Err(v) => ctx.violation(v),
        }
    });
    ctx.note("architectures", json!(archs.len()));
    ctx.note("signal_definitions", json!(defs));
    ctx.note(
        "valuations_per_combinational_architecture",
        json!(vals.len()),
    );
    ctx.assume("Every defined signal, unit input (through a recording unit), program counter and termination is compared in every cycle; the text of each definition is interpreted by an independent parser and evaluator.");
    ctx.assume("Left open: `!` on numbers, case lists none of whose cases holds, stall and bubble of one stage at once.");
}

// ---------------------------------------------------------------- C13

/// One clock edge of a standard or generated architecture, from the registers themselves.
/// `defaults` are the stage values at start-up.
fn check_edge(defaults: &str, cur: &str, nex: &str, after: &str) -> Result<u64, String> {
    let p = |s: &str| split_debug(s).ok_or("unreadable registers");
    let (d, c, n, a) = (p(defaults)?, p(cur)?, p(nex)?, p(after)?);
    let mut k = 0;
    for (st, cv) in &c {
        let find = |v: &Vec<(String, String)>| {
            v.iter()
                .find(|x| x.0 == *st)
                .map(|x| split_debug(&x.1))
                .ok_or("stage vanished")
        };
        let get =
            |v: &Vec<(String, String)>, f: &str| v.iter().find(|x| x.0 == f).map(|x| x.1.clone());
        let Some(cv) = split_debug(cv) else { continue };
        let (Some(dv), Some(nv), Some(av)) = (find(&d)?, find(&n)?, find(&a)?) else {
            continue;
        };
        let stall = get(&nv, "stall").as_deref() == Some("true");
        let bubble = get(&nv, "bubble").as_deref() == Some("true");
        let fs: Vec<&String> = cv
            .iter()
            .map(|x| &x.0)
            .filter(|f| *f != "stall" && *f != "bubble")
            .collect();
        let is = |v: &Vec<(String, String)>| {
            fs.iter().find(|f| get(&av, f) != get(v, f)).map(|f| {
                format!(
                    "{st}.{f} is {:?} after the clock edge, should be {:?}",
                    get(&av, f),
                    get(v, f)
                )
            })
        };
        let bad = match (stall, bubble) {
            (false, false) => is(&nv),
            (true, false) => is(&cv),
            (false, true) => is(&dv),
            (true, true) => is(&cv).and(is(&dv)),
        };
        if let Some(b) = bad {
            return Err(format!("stall={stall} bubble={bubble}: {b}"));
        }
        k += 1;
    }
    Ok(k)
}

fn reg_env(name: &str, l: [usize; 3], n: u64) -> Env {
    let m = n.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    match name {
        "r0" => r0_env(l, n),
        "r1" => Env {
            b: std::array::from_fn(|i| m >> (i + 40) & 1 == 1),
            x: [l[0] as u8, 200u8.wrapping_add(n as u8), l[1] as u8],
            u: [m, !m],
        },
        _ => Env {
            b: [l[0] & 1 == 1, l[0] & 2 == 2, false, false],
            x: [0, (m >> 56) as u8, 0],
            u: [m, !m],
        },
    }
}

/// r0: three stages, each with its own controls.
fn r0_env(ctl: [usize; 3], n: u64) -> Env {
    let s = |k: usize| ctl[k] & 1 != 0;
    let b = |k: usize| ctl[k] & 2 != 0;
    // c: stall when x is NOP, bubble when x is CMOVX; it cannot have both
    let x = match ctl[2] {
        0 => 0,
        1 => 1,
        _ => 2,
    };
    let m = n.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    Env {
        b: [s(0), b(0), s(1), b(1)],
        x: [x, 18 + (n % 200) as u8, 1 + (n % 253) as u8],
        u: [m | 2, if n % 3 == 0 { m | 2 } else { m ^ 0x55 }],
    }
}

pub fn c13(ctx: &Arc<Ctx>) {
    crate::regs::c13_structs(ctx);
    // generated architecture: all histories of controls
    let arch = |n: &str| *verif::NAMES.iter().find(|a| a.0 == n).unwrap();
    // r0, letters: (a, b, c) with 4 x 4 x 3 combinations; without stall and bubble at once, one step longer
    // r1: fourteen stages, at most one stalled and one bubbled; r2: sixty fields
    let r0_wide: Vec<[usize; 3]> = (0..48).map(|k| [k % 4, k / 4 % 4, k / 16]).collect();
    let r0: Vec<[usize; 3]> = (0..27).map(|k| [k % 3, k / 3 % 3, k / 9]).collect();
    let r1: Vec<[usize; 3]> = (0..225).map(|k| [k % 15, k / 15, 0]).collect();
    let r2: Vec<[usize; 3]> = (0..4).map(|k| [k, 0, 0]).collect();
    for (name, letters, n) in [
        ("r0", r0_wide, ctx.pick(3, 4)),
        ("r0", r0, ctx.pick(4, 5)),
        ("r1", r1, 2),
        ("r2", r2, ctx.pick(7, 9)),
    ] {
        let (_, hw, stages, text) = arch(name);
        let h = Hcl::parse(text, stages);
        let seq = de_bruijn(letters.len(), n);
        let pieces = 64;
        let per = seq.len() / pieces + 1;
        ctx.par(pieces, |k| {
            ctx.begin(|| json!({"architecture": name, "piece": k}));
            let r = (|| -> Result<u64, Viol> {
                let mut p = Pair::new(name, hw, &h, k % 2 == 1)
                    .map_err(|e| Viol::new(e, format!("{name}/build"), Value::Null))?;
                for (i, s) in h.stages.iter().enumerate() {
                    if p.fields(s).as_ref() != Some(&p.m.reset_values(i)) {
                        return Err(p.err(format!(
                            "at start-up stage {} is {:?}, should be {:?}",
                            s.name,
                            p.fields(s),
                            p.m.reset_values(i)
                        )));
                    }
                }
                let mut t = 0;
                for (i, l) in seq.iter().skip(k * per).take(per + n).enumerate() {
                    let before = p.m.regs.clone();
                    let both = p.cycle(reg_env(name, letters[*l], (k * per + i) as u64))?;
                    for st in 0..h.stages.len() {
                        let got = p.fields(&h.stages[st]);
                        let want = p.m.regs[st].clone();
                        if both.contains(&st) {
                            let reset = p.m.reset_values(st);
                            match got {
                                Some(g) if g == before[st] || g == reset => p.m.regs[st] = g,
                                _ => return Err(p.err(format!("stage {}, stalled and bubbled at once, is {got:?}: neither the old {:?} nor the reset {reset:?}", h.stages[st].name, before[st]))),
                            }
                        } else if got.as_ref() != Some(&want) {
                            return Err(p.err(format!("after the clock edge stage {} is {got:?}, should be {want:?} (controls {:?})", h.stages[st].name, p.m.controls(st))));
                        }
                    }
                    t += 1;
                    if ctx.stopped() {
                        break;
                    }
                }
                Ok(t)
            })();
            ctx.end();
            match r {
                Ok(t) => {
                    ctx.add(t, t * h.stages.len() as u64, 1);
                    ctx.outcome(&format!("clock edges of {name}, all histories of controls"), t);
                }
                Err(v) => ctx.violation(v),
            }
        });
        ctx.note(
            &format!("{name}: controls, length of histories, {} letters", letters.len()),
            json!(n),
        );
    }
    // the registers of the standard architectures while programs run
    let progs = crate::order::programs(ctx.thorough());
    ctx.par(progs.len() * 3, |j| {
        let (arch, pr) = (
            ["seq_std", "seq_plus_std", "pipe_std"][j % 3],
            &progs[j / 3],
        );
        ctx.begin(|| json!({"arch": arch, "program": pr.json()}));
        let mut img = [0; 1 << 16];
        pr.load_into(&mut img);
        let mem = MemData::init(img);
        let r = guard(|| -> Result<u64, String> {
            let mut s = verif::create(arch, mem.clone(), &mut |_| {}).unwrap();
            let d = s.stages().0;
            let mut k = 0;
            for c in 0..400 {
                s.propagate_signals();
                let (cur, nex) = s.stages();
                s.initiate_next_cycle();
                k += check_edge(&d, &cur, &nex, &s.stages().0)
                    .map_err(|e| format!("{arch}, cycle {}: {e}", c + 1))?;
                if s.is_terminate() || ctx.stopped() {
                    break;
                }
            }
            Ok(k)
        });
        ctx.end();
        match r {
            Ok(Ok(k)) => {
                ctx.add(k, k, 1);
                ctx.outcome(&format!("clock edges of {arch}"), k);
            }
            Ok(Err(e)) => ctx.violation(Viol::new(
                e,
                arch,
                json!({"arch": arch, "program": pr.json()}),
            )),
            Err(_) => {
                ctx.skipped
                    .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
        }
    });
    ctx.assume("stall and bubble at once are an error of the architecture: both the old and the reset value are accepted, the same for all fields");
}
