//! C01 - C09: the simulators against the reference instruction set.
use crate::arch::*;
use crate::batch::*;
use crate::common::*;
use crate::fam::*;
use crate::hazards;
use crate::prog::*;
use crate::refisa::*;
use serde_json::{json, Value};
use std::sync::Arc;

fn case(arch: &str, snip: &[I], img: &Mem) -> Value {
    let mut img_j = vec![];
    let mut i = 0;
    while i < MEM {
        if img[i] == 0 {
            i += 1;
            continue;
        }
        let s = i;
        let mut z = 0;
        while i < MEM && z < 16 {
            z = if img[i] == 0 { z + 1 } else { 0 };
            i += 1;
        }
        img_j.push((s as u64, img[s..i - z].to_vec()));
    }
    json!({"arch": arch, "program": texts(snip), "image": Image{segs: img_j}.json()})
}

fn short_key(prefix: &str, snip: &[I]) -> String {
    format!("{prefix}:{}", texts(snip).join("; "))
}

/// Run a family in batches; every member in the domain is executed as part of one of them.
pub fn batched<F>(ctx: &Arc<Ctx>, fam: &Fam, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem, u64) -> Result<RunStat, String> + Sync,
{
    let per = 1500usize;
    let chunks = fam.n.div_ceil(per);
    ctx.par(chunks, |ch| {
        let (lo, hi) = (ch * per, ((ch + 1) * per).min(fam.n));
        let mut b = Batch::new();
        let flush = |b: &Batch| {
            if b.snips.is_empty() {
                return;
            }
            let budget = b.steps() + 64;
            for a in archs {
                ctx.begin_img(a, ch, &b.img[..]);
                let r = run(a, &b.img, budget);
                ctx.end();
                match r {
                    Ok(s) => {
                        ctx.add(s.cycles + 1, s.cycles, 1);
                        ctx.programs
                            .fetch_add(b.snips.len() as u64, std::sync::atomic::Ordering::Relaxed);
                    }
                    Err(e) => {
                        // look for a minimal reproduction
                        for (_, s) in &b.snips {
                            let m = alone(s);
                            if let Err(e1) = run(a, &m, 2000) {
                                ctx.violation(Viol::new(e1, short_key(a, s), case(a, s, &m)));
                                return;
                            }
                        }
                        let all: Vec<I> = b.snips.iter().flat_map(|x| x.1.clone()).collect();
                        ctx.violation(Viol::new(
                            e,
                            format!("{a}:batch of {} #{ch}", fam.name),
                            case(a, if all.len() > 4000 { &[] } else { &all }, &b.img),
                        ));
                        return;
                    }
                }
            }
        };
        for i in lo..hi {
            let Some(s) = (fam.get)(i) else { continue };
            if i == 0 || i == fam.n / 2 {
                ctx.sample(json!({"family": fam.name, "index": i, "program": texts(&s)}));
            }
            match b.try_add(&s) {
                Add::Ok => {}
                Add::Rejected => {
                    ctx.skipped
                        .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
                Add::Full => {
                    flush(&b);
                    if ctx.stopped() {
                        return;
                    }
                    b = Batch::new();
                    b.try_add(&s);
                }
            }
        }
        flush(&b);
    });
    ctx.outcome(&format!("family: {}", fam.name), fam.n as u64);
}

/// Run a list of standalone images.
pub fn standalone<G, F>(ctx: &Arc<Ctx>, name: &str, n: usize, gen: G, archs: &[&str], run: F)
where
    G: Fn(usize) -> Option<(Vec<I>, Mem)> + Sync,
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    let per = 64;
    ctx.par(n.div_ceil(per), |ch| {
        let mut cnt = std::collections::BTreeMap::new();
        for i in ch * per..((ch + 1) * per).min(n) {
            let Some((s, m)) = gen(i) else { continue };
            for a in archs {
                ctx.begin_img(name, i, &m[..]);
                let r = run(a, &m);
                ctx.end();
                match r {
                    Ok(st) => {
                        ctx.add(st.cycles + 1, st.cycles, 1);
                        ctx.programs
                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        *cnt.entry(st.stop).or_insert(0u64) += 1;
                    }
                    Err(e) => {
                        ctx.violation(Viol::new(e, short_key(a, &s), case(a, &s, &m)));
                        return;
                    }
                }
            }
            if i == n / 3 {
                ctx.sample(json!({"family": name, "index": i, "program": texts(&s)}));
            }
        }
        for (k, v) in cnt {
            ctx.outcome(
                &format!(
                    "{name}: stop {}",
                    k.map(|x| format!("{x:?}"))
                        .unwrap_or("none (bounded or outside domain)".into())
                ),
                v,
            );
        }
    });
    ctx.outcome(&format!("family: {name}"), n as u64);
}

// ---------------------------------------------------------------- ISA simulator

/// Compare isa::simulate with the reference on one image. `None`: reference runs on, not comparable.
pub fn run_isa(m0: &Mem, max: u64) -> Result<RunStat, String> {
    run_isa_tty(m0, max, false)
}

/// Once silently, once printing the trace as the command-line tool does.
fn run_isa_both(m0: &Mem, max: u64) -> Result<RunStat, String> {
    run_isa_tty(m0, max, false)?;
    run_isa_tty(m0, max, true).map_err(|e| format!("printing the trace: {e}"))
}

fn run_isa_tty(m0: &Mem, max: u64, tty: bool) -> Result<RunStat, String> {
    let mut rm = Box::new(*m0);
    let mut r = Machine::default();
    let mut odd = false;
    while r.stat == Stat::Aok && r.n < max {
        let e = r.step(&mut rm);
        odd |= e.dec.is_some_and(|d| d.enc == Enc::Odd);
    }
    let mut st = RunStat {
        insts: r.n,
        cycles: r.n,
        states: 1,
        ..Default::default()
    };
    if r.stat == Stat::Aok {
        return Ok(st);
    }
    st.stop = Some(r.stat);
    let got = match guard(|| y86_sim::isa::simulate(*m0, tty)) {
        Err(p) => {
            return Err(format!(
                "the ISA simulator crashed ({p}); the execution ends with {:?} at {:#x}",
                r.stat, r.pc
            ))
        }
        Ok(g) => g,
    };
    if odd {
        return Ok(st);
    }
    match (r.stat, got) {
        (Stat::Hlt, Ok(g)) => {
            if let Some(d) = diff_regs(&r.regs, &g.regs, [15, 15]) {
                return Err(d);
            }
            if let Some(d) = diff_mem(&rm, &g.bin) {
                return Err(d);
            }
            if let Some(cc) = parse_cc(&format!("{:?}", g.cc)) {
                if cc != r.cc {
                    return Err(format!("condition codes are {cc:?}, should be {:?}", r.cc));
                }
            }
            if g.pc as u64 != r.pc {
                return Err(format!("halting address is {:#x}, should be {:#x}", g.pc, r.pc));
            }
            if g.n_insts as u64 != r.n {
                return Err(format!("instruction count is {}, should be {}", g.n_insts, r.n));
            }
            Ok(st)
        }
        (Stat::Hlt, Err(e)) => Err(format!("the program halts at {:#x}, but the simulator reports an error: {e}", r.pc)),
        (s, Ok(g)) => Err(format!("execution reaches a fault ({s:?}) at {:#x}, but the simulator returns a result (pc {:#x})", r.pc, g.pc)),
        (_, Err(_)) => Ok(st),
    }
}

fn isa_alone(ctx: &Arc<Ctx>, f: &Fam) {
    standalone(
        ctx,
        f.name,
        f.n,
        |i| {
            (f.get)(i).map(|s| {
                let m = alone(&s);
                (s, m)
            })
        },
        &["isa"],
        |_, m| run_isa(m, 3000),
    );
}

/// code placed at other addresses than 0x1000
fn relocated(ctx: &Arc<Ctx>, mined: &[u64]) {
    let mut at: Vec<u64> = (0..16)
        .map(|i| 1u64 << i)
        .chain([9, 10, 11, 0x7ff, 0x7fff, 0xff00, 0xffa0])
        .collect();
    at.extend(mined.iter().copied());
    at.retain(|&a| a >= 9 && a < 0xffa0);
    at.sort();
    at.dedup();
    let fams = single(mined, true);
    let mut picks: Vec<Vec<I>> = vec![];
    for f in &fams {
        for k in 0..6 {
            if let Some(p) = (f.get)((f.n * k / 6 + k) % f.n) {
                picks.push(p);
            }
        }
    }
    let np = picks.len();
    standalone(
        ctx,
        "programs at other code addresses",
        at.len() * np,
        |i| {
            let (a, p) = (at[i / np], &picks[i % np]);
            let b = encode(p, a);
            if a as usize + b.len() > MEM {
                return None;
            }
            let img = Image::new(&[I::J(0, T::Abs(a))]).with(a, b);
            Some((p.clone(), img.load()))
        },
        &["isa"],
        |_, m| run_isa(m, 3000),
    );
}

/// Sleds through all of memory, chains, and countdown loops (3 instructions a round).
fn sleds(loops: &[u64]) -> Vec<(Vec<I>, Mem)> {
    let mut v = vec![];
    for end in [0xffffusize, 0x8000, 0xfffe] {
        let mut m = [0x10u8; MEM];
        m[end] = 0;
        v.push((vec![I::Raw(vec![0x10])], m));
    }
    // addq %rcx,%rax everywhere, odd and even phase
    for ph in 0..2usize {
        let mut m = [0u8; MEM];
        let h = encode(&[ir(3, 1), ir(1, 0), I::J(0, T::Abs(32 + ph as u64))], 0);
        m[..h.len()].copy_from_slice(&h);
        let mut a = 32 + ph;
        while a + 2 < MEM {
            m[a] = 0x60;
            m[a + 1] = 0x10;
            a += 2;
        }
        v.push((vec![I::Op(0, 1, 0)], m));
    }
    // irmovq of every address
    for ph in 0..10usize {
        let mut m = [0u8; MEM];
        let h = encode(&[I::J(0, T::Abs(16 + ph as u64))], 0);
        m[..h.len()].copy_from_slice(&h);
        let mut a = 16 + ph;
        while a + 11 < MEM {
            let b = encode(
                &[ir(
                    (a as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15),
                    (a % 15) as u8,
                )],
                0,
            );
            m[a..a + 10].copy_from_slice(&b);
            a += 10;
        }
        v.push((vec![ir(0, 0)], m));
    }
    // chains of calls and of jumps through all of memory, and a descending stack
    for ph in 0..9usize {
        let mut m = [0u8; MEM];
        let base = 0x8100 + ph;
        let h = encode(&[ir(0x8000, RSP), I::J(0, T::Abs(base as u64))], 0);
        m[..h.len()].copy_from_slice(&h);
        let mut a = base;
        while a + 10 < MEM {
            let b = encode(&[I::Call(T::Abs(a as u64 + 9))], 0);
            m[a..a + 9].copy_from_slice(&b);
            a += 9;
        }
        v.push((vec![I::Call(T::L(0))], m));
    }
    // long countdown loops, the longest first: they should not be left over at the end
    for (k, &n) in loops.iter().enumerate() {
        v.insert(k, {
            let p = vec![
                ir(n, 1),
                ir(u64::MAX, 2),
                I::Lab(0),
                I::Op(0, 1, 3),
                I::Op(0, 2, 1),
                I::J(4, T::L(0)),
            ];
            let m = Image::new(&p).load();
            (p, m)
        });
    }
    v
}

/// Store/load of every address with a generic program: a loop that walks memory.
fn sweep_prog(ld: bool, base: u64) -> Vec<I> {
    let p = if ld {
        vec![
            ir(base, 1),
            ir(1, 2),
            ir(0xfff8 - base + 1, 3),
            ir(0, 6),
            I::Lab(0),
            I::Ld(0, 1, 7),
            I::Op(3, 7, 6),
            I::Op(0, 2, 6),
            I::Op(0, 2, 1),
            I::Op(1, 2, 3),
            I::J(4, T::L(0)),
        ]
    } else {
        vec![
            ir(0x100, 1),
            ir(1, 2),
            ir(0xfff8 - 0x100 + 1, 3),
            ir(base, 6),
            ir(0x9e37_79b9_7f4a_7c15, 8),
            I::Lab(0),
            I::St(6, 0, 1),
            I::Op(0, 8, 6),
            I::Op(0, 2, 1),
            I::Op(1, 2, 3),
            I::J(4, T::L(0)),
        ]
    };
    p
}

fn sweeps() -> Vec<(Vec<I>, Mem)> {
    let mut v = vec![];
    for (ld, b) in [(true, 0u64), (false, 0x0123_4567_89ab_cdef)] {
        let p = sweep_prog(ld, b);
        let mut m = [0u8; MEM];
        for (i, x) in m.iter_mut().enumerate() {
            *x = (i as u32).wrapping_mul(2654435761).to_be_bytes()[0];
        }
        let e = encode(&p, 0);
        m[..e.len()].copy_from_slice(&e);
        m[e.len()] = 0;
        v.push((p, m));
    }
    v
}

pub fn c01(ctx: &Arc<Ctx>) {
    let mined = mined();
    ctx.note("mined_constants", json!(mined.len()));
    ctx.assume("programs consist of encodings the assembler can emit and halt within the stated number of instructions");
    for f in single(&mined, true) {
        isa_alone(ctx, &f);
    }
    for f in loops(ctx.pick(60, 300)) {
        isa_alone(ctx, &f);
    }
    isa_alone(ctx, &general(5, [RAX, RBX, RDX]));
    isa_alone(ctx, &general(3, [RSP, 14, 7]));
    isa_alone(ctx, &general(3, [14, RBP, RCX]));
    let al = hazards::alphabet([RAX, RBX, RCX]);
    isa_alone(
        ctx,
        &hazards::sequences(
            "all sequences over the hazard alphabet",
            al,
            [RAX, RBX, RCX],
            ctx.pick(4, 5),
        ),
    );
    for f in hazards::single_producer() {
        isa_alone(ctx, &f);
    }
    relocated(ctx, &mined);
    let mut l = sleds(&[400_000, 8_000_000, 40_000, 10_000]);
    l.extend(sweeps());
    standalone(
        ctx,
        "sleds through all of memory, long loops, address sweeps",
        l.len(),
        |i| Some(l[i].clone()),
        &["isa"],
        |_, m| run_isa(m, 100_000_000),
    );
    memory_accesses(ctx, &["isa"], |_, m| run_isa(m, 2000));
    stack_ends(ctx, &["isa"], |_, m| run_isa(m, 2000));
    code_ends(ctx, &["isa"], |_, m| run_isa(m, 2000));
    tours(ctx, &["isa"], |_, m| run_isa(m, 200_000));
    selfmod(ctx, &["isa"], |_, m| run_isa(m, 3000));
    ctx.note("bounds", json!("all members of the named families; general alphabet sequences to the stated length; programs up to 24 million instructions"));
}

/// Self-modifying programs (legal everywhere but in the pipeline).
fn selfmod<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    // overwrite the bytes at distance d after the store with an instruction word
    let words: Vec<u64> = vec![
        0,
        u64::from_le_bytes([0x60, 0x23, 0x61, 0x32, 0x10, 0x10, 0x10, 0]),
        u64::from_le_bytes([0x10, 0x10, 0x20, 0x36, 0xa0, 0x3f, 0xb0, 0x7f]),
        u64::from_le_bytes([0xd0, 0x10, 0x20, 0x36, 0xa0, 0x3f, 0xb0, 0x7f]),
    ];
    let nw = words.len();
    standalone(
        ctx,
        "self-modifying code: word x distance",
        nw * 40,
        |i| {
            let (w, d) = (words[i % nw], (i / nw) as u64);
            let mut p = vec![
                ir(0x800, RSP),
                ir(w, 2),
                ir(0x55, 3),
                ir(0, 5),
                I::St(2, 50 + d, 5),
            ];
            for k in 0..5 {
                p.extend([ir(k, 6), I::Op(0, 6, 3)]);
            }
            let m = Image::new(&p).load();
            Some((p, m))
        },
        archs,
        run,
    );
}

/// Values of the second operand word for byte-level images.
const WORDS: [u64; 8] = [0, 0x100, 0xfff8, 0xfff9, 0xffff, 0x10000, u64::MAX, 1 << 63];

/// One instruction given by its first two bytes, an operand word, and where it stands.
fn raw_image(b0: u8, b1: u8, w: u64, at: u64, setup: &[I]) -> Option<Mem> {
    let mut m = [0u8; MEM];
    let mut p = setup.to_vec();
    let len = encode(&p, 0).len() as u64;
    if at != len {
        p.push(I::J(0, T::Abs(at)));
    }
    let e = encode(&p, 0);
    if (at as usize) < e.len() && at != len {
        return None;
    }
    m[..e.len()].copy_from_slice(&e);
    let mut ins = vec![b0, b1];
    if (b0 >> 4) == 7 || (b0 >> 4) == 8 {
        ins.truncate(1);
        ins.extend(w.to_le_bytes());
        ins[1] = ins[1].wrapping_add(0);
    } else {
        ins.extend(w.to_le_bytes());
    }
    for (k, x) in ins.iter().enumerate() {
        let a = at as usize + k;
        if a < MEM {
            m[a] = *x;
        }
    }
    Some(m)
}

fn setups() -> Vec<Vec<I>> {
    let mut v = vec![];
    for (sp, a, b) in [
        (0x200u64, 0x100u64, 0x180u64),
        (0, 0, 0),
        (8, u64::MAX, 1),
        (7, 0xfff8, 0xfff9),
        (0x10000, 0x10000, 0xffff),
        (0x10001, u64::MAX - 7, MIN),
        (0xfff8, MAX, MAX),
        (0xfff9, u64::MAX - 8, u64::MAX),
        (u64::MAX, 0x1_0000_0000, 1),
        (1 << 63, MIN, MIN),
        ((1 << 63) + 8, MAX, 1),
    ] {
        let mut p = vec![ir(sp, RSP)];
        for r in 0..15u8 {
            if r != RSP {
                p.push(ir(if r % 2 == 0 { a } else { b }, r));
            }
        }
        v.push(p);
    }
    v
}

pub fn c02(ctx: &Arc<Ctx>) {
    silenced(|| c02_images(ctx))
}

fn c02_images(ctx: &Arc<Ctx>) {
    ctx.assume("encodings the assembler never emits (function code or register specifier out of range) may be executed or refused; they must not crash");
    let st = setups();
    let words: &[u64] = if ctx.thorough() { &WORDS } else { &WORDS[..8] };
    let nw = words.len();
    // every pair of first bytes, alone at address 0
    standalone(
        ctx,
        "all 65536 first two bytes x operand word, at address 0",
        65536 * nw,
        |i| {
            let (b, w) = (i / nw, words[i % nw]);
            let m = raw_image((b >> 8) as u8, b as u8, w, 0, &[])?;
            Some((vec![I::Raw(m[..11].to_vec())], m))
        },
        &["isa"],
        |_, m| run_isa_both(m, 2000),
    );
    // every first byte, selected second bytes, extreme register contents
    let b1s: Vec<u8> = (0..=255u8)
        .filter(|b| {
            ctx.thorough()
                || [
                    0x02, 0x20, 0x44, 0x24, 0x42, 0x4f, 0x0f, 0xf0, 0xf4, 0x33, 0xff, 0xee,
                ]
                .contains(b)
        })
        .collect();
    let (n1, ns) = (b1s.len(), st.len());
    standalone(
        ctx,
        "first byte x second byte x operand word x register contents",
        256 * n1 * nw * ns,
        |i| {
            let mut d = Dig(i);
            let (w, s, b1, b0) = (words[d.d(nw)], &st[d.d(ns)], b1s[d.d(n1)], d.d(256) as u8);
            let at = encode(s, 0).len() as u64;
            let m = raw_image(b0, b1, w, at, s)?;
            Some((vec![I::Raw(m[..at as usize + 11].to_vec())], m))
        },
        &["isa"],
        |_, m| run_isa_both(m, 2000),
    );
    // instructions that straddle the end of memory
    let ends: Vec<u64> = (0xffe8..=0xffffu64).collect();
    let ne = ends.len();
    standalone(
        ctx,
        "every first byte at every address near the end of memory",
        ne * 256 * 3 * 3,
        |i| {
            let mut d = Dig(i);
            let (s, b1, at, b0) = (
                &st[d.d(3)],
                [0x01u8, 0x45, 0xf3][d.d(3)],
                ends[d.d(ne)],
                d.d(256) as u8,
            );
            let mut m = raw_image(b0, b1, 0x100, at, s)?;
            let k = (at + ilen(b0 >> 4)) as usize;
            // what follows is a nop sled, so that execution also runs off the end
            if i % 2 == 0 {
                for a in k..MEM {
                    m[a] = 0x10;
                }
            }
            Some((vec![I::Raw(vec![b0, b1])], m))
        },
        &["isa"],
        |_, m| run_isa_both(m, 2000),
    );
    // jump, call and return to every kind of address
    let mut tg: Vec<u64> = vec![
        0x100,
        0xfff7,
        0xfff8,
        0xfff9,
        0xfffe,
        0xffff,
        0x10000,
        0x10001,
        1 << 31,
        1 << 32,
        MAX,
        MIN,
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 9,
        u64::MAX - 8,
    ];
    tg.extend(mined());
    tg.retain(|&x| x >= 0x80);
    let nt = tg.len();
    standalone(
        ctx,
        "jump, call and return to every kind of address",
        nt * 4,
        |i| {
            let (t, k) = (tg[i / 4], i % 4);
            let p = match k {
                0 => vec![I::J(0, T::Abs(t))],
                1 => vec![ir(0x80, RSP), I::Call(T::Abs(t))],
                2 => vec![ir(0x80, RSP), ir(t, 0), I::Push(0), I::Ret],
                _ => vec![I::J(3, T::Abs(t)), I::J(4, T::Abs(t)), I::Halt],
            };
            let m = Image::new(&p).load();
            Some((p, m))
        },
        &["isa"],
        |_, m| run_isa_both(m, 2000),
    );
    memory_accesses(ctx, &["isa"], |_, m| run_isa_both(m, 2000));
    stack_ends(ctx, &["isa"], |_, m| run_isa_both(m, 2000));
    stops_everywhere(ctx, &["isa"], |_, m| run_isa(m, 2000));
    let l = sleds(&[10_000, 40_000]);
    standalone(
        ctx,
        "sleds",
        l.len(),
        |i| {
            let mut x = l[i].clone();
            if i < 1 {
                x.1[0xffff] = 0x10;
            }
            Some(x)
        },
        &["isa"],
        |_, m| run_isa_both(m, 2_000_000),
    );
}

/// Data accesses at boundary addresses.
fn memory_accesses<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    let mut ea: Vec<u64> = (0xfff0..=0x10010u64).collect();
    ea.extend([
        0,
        1,
        7,
        8,
        9,
        0x7fff,
        0x8000,
        1 << 31,
        1 << 32,
        (1 << 32) + 8,
        0xffff_fff8,
        MAX,
        MAX - 7,
        MIN,
        MIN - 8,
        MIN + 8,
    ]);
    ea.extend((0..20).map(|k| u64::MAX - k));
    for i in 17..64 {
        ea.push(1 << i);
        ea.push((1 << i) + 0x100);
    }
    ea.extend(mined());
    ea.sort();
    ea.dedup();
    let bases: Vec<u64> = vec![0, 8, u64::MAX, u64::MAX - 7, MIN, MAX, 0xfff8, 0x10000];
    let (ne, nb) = (ea.len(), bases.len());
    standalone(
        ctx,
        "loads and stores: effective address x base register",
        ne * nb * 2 * 2,
        |i| {
            let mut d = Dig(i);
            let (st, b, a, filler) = (d.d(2), bases[d.d(nb)], ea[d.d(ne)], d.d(2));
            let mut p = vec![ir(0x1122_3344_5566_7788, 1), ir(b, 2)];
            if filler == 1 {
                p.extend([I::Nop, I::Nop, I::Nop]);
            }
            p.push(if st == 1 {
                I::St(1, a.wrapping_sub(b), 2)
            } else {
                I::Ld(a.wrapping_sub(b), 2, 1)
            });
            p.extend([ir(1, 3), ir(0x400, 6), I::St(3, 0, 6), I::Halt]);
            let mut m = Image::new(&p).load();
            m[0xfff0..].fill(0xa5);
            if st == 1 && a < 0x80 {
                return None;
            }
            Some((p, m))
        },
        archs,
        &run,
    );
    standalone(
        ctx,
        "stack instructions: rsp x kind x register",
        ne * 6 * 2,
        |i| {
            let mut d = Dig(i);
            let (k, f, sp) = (d.d(6), d.d(2), ea[d.d(ne)]);
            let mut p = vec![ir(0x300, 1), ir(sp, RSP)];
            if f == 1 {
                p.extend([I::Nop, I::Nop, I::Nop]);
            }
            p.extend(match k {
                0 => vec![I::Push(1)],
                1 => vec![I::Pop(1)],
                2 => vec![I::Call(T::Abs(0x100))],
                3 => vec![I::Ret],
                4 => vec![I::Push(RSP)],
                _ => vec![I::Pop(RSP)],
            });
            p.extend([ir(1, 3), ir(0x400, 6), I::St(3, 0, 6), I::Halt]);
            let mut m = Image::new(&p).with_prog(0x100, &[ir(2, 3), I::Halt]).load();
            m[0xfff0..].fill(0);
            m[0xfff9] = 0x01;
            if sp < 0x120 && k != 1 && k != 3 && k != 5 && (sp as usize) < 0x120 && sp >= 8 {
                return None;
            }
            Some((p, m))
        },
        archs,
        &run,
    );
}

/// Two stack instructions or accesses through rsp in succession, around both ends of the memory.
fn stack_ends<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    use I::*;
    let mut sp: Vec<u64> = (0..=17).chain(0xffdf..=0x10011u64).collect();
    sp.extend((0..18).map(|k| u64::MAX - k));
    sp.extend([1 << 31, 1 << 32, MAX - 7, MIN, MIN + 8, 0x300, 0x7ff8, 0x8000]);
    let al: Vec<Vec<I>> = vec![
        vec![Push(1)],
        vec![Push(RSP)],
        vec![Pop(2)],
        vec![Pop(RSP)],
        vec![Call(T::L(0)), Lab(0)],
        vec![Ld(0, RSP, 2)],
        vec![St(1, 0, RSP)],
        vec![Ld(u64::MAX - 7, RSP, 1)],
        vec![Op(0, 3, RSP)],
        vec![Op(1, 3, RSP)],
        vec![Ret],
    ];
    let (na, ns) = (al.len(), sp.len());
    standalone(
        ctx,
        "rsp around both ends of memory x two stack instructions x distance",
        ns * na * na * 3,
        |i| {
            let mut d = Dig(i);
            let (gap, a, b, v) = (d.d(3), d.d(na), d.d(na), sp[d.d(ns)]);
            if a == na - 1 && (b > 0 || gap > 0) {
                return None;
            }
            let mut p = vec![ir(0x180, 1), ir(8, 3), ir(v, RSP)];
            let mut gaps = vec![Nop; gap];
            gaps.insert(0, Nop);
            let parts: [&[I]; 3] = [&al[a], &gaps[1..], &al[b]];
            hazards::splice(&parts, &mut p);
            p.extend([Op(0, 2, 1), ir(1, 6), Halt]);
            let mut m = Image::new(&[J(0, T::Abs(0x80))]).with_prog(0x80, &p).with_prog(0x180, &[ir(2, 6), Halt]).load();
            m[0xffd0..].fill(0);
            m[0xfff9] = 0x01;
            m[0xfff8] = 0x80;
            m[0xfff0] = 0xf0;
            m[0xfff1] = 0xff;
            Some((p, m))
        },
        archs,
        &run,
    );
}

/// Instructions and short programs at the end of the memory, transfers to every kind of address.
fn code_ends<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    use I::*;
    // encodings the assembler never emits are outside
    let run = |a: &str, m: &Mem| -> Result<RunStat, String> {
        if ref_run(m, 400, false).odd {
            return Ok(RunStat::default());
        }
        run(a, m)
    };
    let ends: Vec<u64> = (0xfff0..=0xffffu64).collect();
    let ne = ends.len();
    standalone(
        ctx,
        "instructions at every address near the end of memory",
        ne * 12 * 7 * 3 * 2,
        |i| {
            let mut d = Dig(i);
            let (b1, at, b0, f, sled) = (
                [0x01u8, 0x4f, 0xf3][d.d(3)],
                ends[d.d(ne)],
                d.d(12) as u8,
                d.d(7) as u8,
                d.d(2),
            );
            if f > 0 && (b0 != 2 && b0 != 7 && (b0 != 6 || f > 3)) {
                return None;
            }
            let st = [ir(0x18, 0), ir(0x100, 1), ir(0x300, RSP), Op(1, 0, 1)];
            let mut m = raw_image(b0 << 4 | f, b1, 0x100, at, &st)?;
            if sled == 1 {
                m[MEM.min((at + ilen(b0)) as usize)..].fill(0x10);
            }
            Some((vec![Raw(m[at as usize..].to_vec())], m))
        },
        archs,
        &run,
    );
    let mut tg: Vec<u64> = (0xfff0..=0x10009).chain([0x100, 1 << 31, 1 << 32, (1 << 32) + 0x100, MAX, MIN]).collect();
    tg.extend((0..20).map(|k| u64::MAX - k));
    tg.extend(mined());
    tg.retain(|&x| x >= 0x80);
    let nt = tg.len();
    standalone(
        ctx,
        "jump, call and return to every kind of address",
        nt * 5,
        |i| {
            let (t, k) = (tg[i / 5], i % 5);
            let p = match k {
                0 => vec![J(0, T::Abs(t))],
                1 => vec![ir(0x80, RSP), Call(T::Abs(t))],
                2 => vec![ir(0x80, RSP), ir(t, 0), Push(0), Ret],
                3 => vec![J(4, T::Abs(t)), Halt],
                _ => vec![Op(3, 0, 0), J(4, T::Abs(t)), Nop, Halt],
            };
            let m = Image::new(&p).load();
            Some((p, m))
        },
        archs,
        &run,
    );
    let g = general(2, [RAX, RBX, RDX]);
    standalone(
        ctx,
        "general sequences of length 2 that end at the end of memory",
        g.n * 5,
        |i| {
            let mut p = (g.get)(i / 5)?;
            let len = encode(&p, 0).len() as u64;
            let j = (i % 5) as u64;
            // cut off by the end of the memory, exactly at the end, or a little before
            let at = MEM as u64 - len - j.saturating_sub(1);
            if j == 0 {
                p.insert(0, Nop);
            }
            p.push(Halt);
            let mut e = encode(&p, at);
            e.truncate(MEM - at as usize);
            let m = Image::new(&[J(0, T::Abs(at))]).with(at, e).load();
            Some((p, m))
        },
        archs,
        &run,
    );
}

/// Tours through the whole address space: every instruction at every address, every kind of control
/// transfer from and to every address.
fn tours<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    use I::*;
    // (b, a, op) so that each condition holds / fails
    let holds: [usize; 7] = [0, 1, 1, 2, 0, 0, 0];
    let fails: [usize; 7] = [0, 0, 0, 0, 2, 1, 2];
    let mut kinds: Vec<(usize, u8, usize)> = vec![]; // kind, condition, slot length
    for c in 0..7u8 {
        kinds.push((0, c, 9));
    }
    kinds.push((1, 0, 11));
    kinds.push((2, 0, 13));
    for c in 1..7u8 {
        kinds.push((3, c, 9));
    }
    for k in 0..13u8 {
        kinds.push((4, k, [2, 2, 10, 10, 10, 10, 4, 4, 4, 2, 2, 2, 2][k as usize]));
    }
    let mut l = vec![];
    for (k, &(_, _, n)) in kinds.iter().enumerate() {
        for ph in 0..n {
            for lay in 0..3 {
                l.push((k, ph, lay));
            }
        }
    }
    let kinds = &kinds;
    standalone(
        ctx,
        "tours: every instruction and every transfer from and to every address",
        l.len(),
        |i| {
            let (k, ph, lay) = l[i];
            let (kind, c, len) = kinds[k];
            // where the code that sets up lies, the stack and data, the slots
            let (setup, data, lo, hi) = match lay {
                0 => (0xfd00u64, 0xff00u64, 9 + ph, 0xfd00),
                1 => (0x10, 0x200, 0x300 + ph, MEM),
                _ => (0xfd00, 0xff00, 0x40 + ph, 0x140),
            };
            let n = (hi - lo) / len - 1;
            let mut m = [0u8; MEM];
            let mut step = n * 5 / 8 + 1;
            while (2..=step).any(|x| step % x == 0 && n % x == 0) {
                step += 1;
            }
            let at = |j: usize| (lo + len * (j * step % n)) as u64;
            let cc = match kind {
                3 => fails[c as usize],
                0 => holds[c as usize],
                _ => 0,
            };
            let mut p = vec![
                ir(data + 0x40, RSP),
                ir(data + 0x80, 3),
                ir(5, 6),
                Push(6),
            ];
            p.extend(set_cc(cc, 8, 9));
            let linear = kind >= 3;
            p.push(J(0, T::Abs(if linear { lo as u64 } else { at(0) })));
            let e = encode(&p, setup);
            m[setup as usize..setup as usize + e.len()].copy_from_slice(&e);
            // lay 2: small tours that end with a jump to an address below 9
            let h = if lay == 2 {
                let mut h = vec![Nop; 8];
                h.extend([J(4, T::Abs(0x3f)), J(0, T::Abs(setup))]);
                h
            } else {
                vec![J(0, T::Abs(setup))]
            };
            let e = encode(&h, 0);
            m[..e.len()].copy_from_slice(&e);
            for j in 0..n {
                let a = if linear { (lo + len * j) as u64 } else { at(j) };
                let next = if j + 1 < n {
                    at(j + 1)
                } else if lay == 2 && !linear {
                    ph as u64 % 9
                } else {
                    (lo + len * n) as u64
                };
                let q = match kind {
                    0 => vec![J(c, T::Abs(next))],
                    1 => vec![Pop(7), Call(T::Abs(next))],
                    2 => vec![ir(next, 7), Push(7), Ret],
                    3 => vec![J(c, T::Abs(at(j)))],
                    _ => {
                        let r = (j % 15) as u8;
                        let r = if r == RSP || r == 3 { 0 } else { r };
                        match c {
                            0 => vec![Cmov(0, r, ((j + 1) % 3) as u8)],
                            1 => vec![Cmov(4, r, ((j + 1) % 3) as u8)],
                            2 => vec![St(r, (j % 8 * 8) as u64, 3)],
                            3 => vec![Ld((j % 8 * 8) as u64, 3, r)],
                            4 => vec![Ld((j % 8 * 8) as u64, RSP, r)],
                            5 => vec![St(r, (j % 8 * 8) as u64, RSP)],
                            6 => vec![Push(r), Pop(((j + 1) % 3) as u8)],
                            7 => vec![Pop(r), Push(((j + 1) % 3) as u8)],
                            8 => vec![Push(RSP), Pop(r)],
                            k => vec![Op(k - 9, r, ((j + 1) % 3) as u8)],
                        }
                    }
                };
                let e = encode(&q, a);
                m[a as usize..a as usize + e.len()].copy_from_slice(&e);
            }
            Some((vec![Raw(vec![kind as u8, c, ph as u8, lay as u8])], m))
        },
        archs,
        &run,
    );
}

// ---------------------------------------------------------------- sequential architectures

fn c_seq(ctx: &Arc<Ctx>, arch: &'static str) {
    let mined = mined();
    let o = Opts {
        cc_ops: true,
        stat: true,
        ..Default::default()
    };
    let archs = [arch];
    let run = |a: &str, m: &Mem, max: u64| run_any(a, m, max, &o);
    for f in single(&mined, false) {
        batched(ctx, &f, &archs, run);
    }
    for f in loops(ctx.pick(60, 200)) {
        batched(ctx, &f, &archs, run);
    }
    batched(ctx, &general(ctx.pick(4, 5), [RAX, RBX, RDX]), &archs, run);
    batched(ctx, &general(3, [RSP, 14, 7]), &archs, run);
    batched(ctx, &general(3, [14, RBP, RCX]), &archs, run);
    for f in hazards::single_producer() {
        batched(ctx, &f, &archs, run);
    }
    for f in hazards::branches(false)
        .into_iter()
        .chain(hazards::returns(false))
    {
        batched(ctx, &f, &archs, run);
    }
    // control transfers in direct succession: every pair and triple
    batched(ctx, &transfers(ctx.pick(5, 6)), &archs, run);
    let al = hazards::alphabet([RAX, RBX, RCX]);
    batched(
        ctx,
        &hazards::sequences(
            "all sequences over the hazard alphabet",
            al,
            [RAX, RBX, RCX],
            ctx.pick(4, 5),
        ),
        &archs,
        run,
    );
    let mut l = sleds(&[400_000, 40_000, 10_000]);
    l.extend(sweeps());
    standalone(
        ctx,
        "sleds through all of memory, long loops, address sweeps",
        l.len(),
        |i| Some(l[i].clone()),
        &archs,
        |a, m| run_any(a, m, 2_000_000, &o),
    );
    memory_accesses(ctx, &archs, |a, m| run_any(a, m, 2000, &o));
    stack_ends(ctx, &archs, |a, m| run_any(a, m, 2000, &o));
    code_ends(ctx, &archs, |a, m| run_any(a, m, 2000, &o));
    tours(ctx, &archs, |a, m| run_any(a, m, 200_000, &o));
    let deep = Opts {
        cc_ops: true,
        deep_mem: true,
        ..Default::default()
    };
    selfmod(ctx, &archs, |a, m| run_any(a, m, 200, &deep));
    let g = general(3, [RAX, RBX, RDX]);
    let gn = ctx.pick(g.n.min(1500), g.n);
    standalone(
        ctx,
        "general sequences of length 3, all of memory compared in every cycle",
        gn,
        |i| {
            (g.get)(i * (g.n / gn)).map(|s| {
                let m = alone(&s);
                (s, m)
            })
        },
        &archs,
        |a, m| run_any(a, m, 200, &deep),
    );
    ctx.note("oracle", json!("reference ISA model in lockstep: pc, registers, stored words, condition codes after every arithmetic instruction, termination in every cycle; all of memory, condition codes and status at the end"));
}

/// Sequences of control transfers, each with a different target shape.
fn transfers(len: usize) -> Fam {
    use I::*;
    let al: Vec<Vec<I>> = vec![
        vec![J(0, T::L(0)), Lab(0)],
        vec![J(3, T::L(0)), Nop, Lab(0)],
        vec![J(4, T::L(0)), Nop, Lab(0)],
        vec![Call(T::L(0)), Lab(0)],
        vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)],
        vec![Ir(T::L(0), 6), Push(6), Ret, Halt, Lab(0)],
        vec![
            J(0, T::L(1)),
            Lab(0),
            J(0, T::L(2)),
            Lab(1),
            J(0, T::L(0)),
            Lab(2),
        ],
        vec![J(2, T::L(0)), ir(3, 3), Lab(0)],
        vec![Op(3, 1, 1)],
        vec![Op(1, 2, 3)],
        vec![Cmov(4, 2, 1)],
        vec![Push(RSP), Pop(RSP)],
    ];
    let n = al.len();
    fam(
        "all sequences of control transfers",
        n.pow(len as u32),
        move |i| {
            let mut d = Dig(i);
            let mut p = vec![ir(0x100, 1), ir(0x40, 2), ir(0x10, 3), ir(0x800, RSP)];
            let parts: Vec<&[I]> = (0..len).map(|_| &al[d.d(n)][..]).collect();
            hazards::splice(&parts, &mut p);
            Some(p)
        },
    )
}

pub fn c03(ctx: &Arc<Ctx>) {
    c_seq(ctx, "seq_std")
}
pub fn c04(ctx: &Arc<Ctx>) {
    c_seq(ctx, "seq_plus_std")
}

// ---------------------------------------------------------------- pipeline

fn pipe_families(ctx: &Arc<Ctx>, mined: &[u64]) -> Vec<Fam> {
    let mut v = vec![];
    let asg: &[[u8; 3]] = &[[RAX, RBX, RCX], [6, 7, 8], [14, 9, RBP]];
    for (k, &r) in asg.iter().enumerate() {
        let len = if k == 0 {
            ctx.pick(4, 5)
        } else {
            ctx.pick(3, 4)
        };
        v.push(hazards::sequences(
            "all sequences over the hazard alphabet",
            hazards::alphabet(r),
            r,
            len,
        ));
    }
    v.push(hazards::sequences(
        "all sequences over the small hazard alphabet",
        hazards::alphabet_small(asg[1]),
        asg[1],
        ctx.pick(5, 6),
    ));
    // %rsp in the place of a general register
    v.push(hazards::sequences(
        "all sequences over the hazard alphabet, %rsp as operand",
        hazards::alphabet([RSP, RBX, RCX]),
        [RSP, RBX, RCX],
        3,
    ));
    v.extend(hazards::single_producer());
    v.extend(hazards::double_producer(if ctx.thorough() {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
    } else {
        &[0, 4, 7, 14]
    }));
    v.extend(hazards::returns(ctx.thorough()));
    v.extend(single(mined, false));
    v.extend(loops(ctx.pick(60, 200)));
    v
}

pub fn c05(ctx: &Arc<Ctx>) {
    let mined = mined();
    let o = Opts {
        stat: true,
        ..Default::default()
    };
    let run = |a: &str, m: &Mem, max: u64| run_any(a, m, max, &o);
    for f in pipe_families(ctx, &mined) {
        batched(ctx, &f, &["pipe_std"], run);
    }
    let mut l = sleds(&[400_000, 40_000, 10_000]);
    l.extend(sweeps());
    standalone(
        ctx,
        "sleds through all of memory, long loops, address sweeps",
        l.len(),
        |i| Some(l[i].clone()),
        &["pipe_std"],
        |a, m| run_any(a, m, 2_000_000, &o),
    );
    memory_accesses(ctx, &["pipe_std"], |a, m| run_any(a, m, 2000, &o));
    stack_ends(ctx, &["pipe_std"], |a, m| run_any(a, m, 2000, &o));
    code_ends(ctx, &["pipe_std"], |a, m| run_any(a, m, 2000, &o));
    tours(ctx, &["pipe_std"], |a, m| run_any(a, m, 200_000, &o));
    let deep = Opts {
        deep_mem: true,
        ..Default::default()
    };
    let r = [RAX, RBX, RCX];
    let g = hazards::sequences("", hazards::alphabet(r), r, 3);
    let gn = ctx.pick(3000, g.n);
    standalone(
        ctx,
        "hazard sequences of length 3, all of memory compared in every cycle",
        gn,
        |i| {
            (g.get)(i * (g.n / gn)).map(|s| {
                let m = alone(&s);
                (s, m)
            })
        },
        &["pipe_std"],
        |a, m| run_any(a, m, 200, &deep),
    );
    ctx.assume("programs do not modify their own code (the run is skipped if a store hits bytes that are executed)");
    ctx.note("oracle", json!("every cycle: the register file is a state of the reference execution at or after the previous one; end: registers, memory, condition codes, status"));
}

pub fn c06(ctx: &Arc<Ctx>) {
    let o = Opts {
        stat: true,
        ..Default::default()
    };
    let run = |a: &str, m: &Mem, max: u64| run_any(a, m, max, &o);
    for f in hazards::branches(ctx.thorough())
        .into_iter()
        .chain(hazards::returns(ctx.thorough()))
    {
        batched(ctx, &f, &["pipe_std"], run);
    }
    batched(ctx, &transfers(ctx.pick(5, 6)), &["pipe_std"], run);
    tours(ctx, &["pipe_std"], |a, m| run_any(a, m, 200_000, &o));
    let g = general(4, [RAX, RBX, RDX]);
    batched(ctx, &g, &["pipe_std"], run);
    let deep = Opts {
        deep_mem: true,
        stat: true,
        ..Default::default()
    };
    let fams: Vec<Fam> = hazards::branches(false)
        .into_iter()
        .chain(hazards::returns(false))
        .collect();
    for f in &fams {
        let gn = ctx.pick(3000, 50000).min(f.n);
        standalone(
            ctx,
            &format!("{}; alone, all of memory compared in every cycle", f.name),
            gn,
            |i| {
                (f.get)(i * (f.n / gn)).map(|s| {
                    let m = alone(&s);
                    (s, m)
                })
            },
            &["pipe_std"],
            |a, m| run_any(a, m, 400, &deep),
        );
    }
    ctx.note("oracle", json!("reference ISA model never sees the wrong path; registers every cycle, memory, condition codes and status at the end"));
}

// ---------------------------------------------------------------- faults

pub fn stoppers() -> Vec<Vec<I>> {
    use I::*;
    let mut v = vec![
        vec![Halt],
        vec![Raw(vec![0xd0])],
        vec![Raw(vec![0xe1, 0x12])],
        vec![Raw(vec![0xf0, 0xff])],
        vec![Raw(vec![0xff])],
        vec![Iop(0, 5, 1)],
        vec![Ret],
        vec![J(0, T::Abs(0x10000))],
        vec![J(0, T::Abs(u64::MAX))],
        vec![J(0, T::Abs(0xffff))],
        vec![J(3, T::Abs(0x1_0000_0000)), J(4, T::Abs(0x1_0000_0000))],
        vec![Call(T::Abs(u64::MAX - 3))],
    ];
    // faulting data accesses: register 9 holds an address outside memory, 10 the last byte
    v.push(vec![St(1, 0, 9)]);
    v.push(vec![St(1, 0, 10)]);
    v.push(vec![Ld(0, 9, 7)]);
    v.push(vec![Ld(0, 10, 1)]);
    v.push(vec![Cmov(0, 9, RSP), Push(1)]);
    v.push(vec![Cmov(0, 10, RSP), Pop(2)]);
    v.push(vec![ir(4, RSP), Call(T::Abs(0x300))]);
    v.push(vec![ir(0xffff_ffff_0000, RSP), Ret]);
    v
}

fn prefixes() -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![Nop],
        vec![Op(1, 1, 2)],
        vec![Op(3, 1, 1)],
        vec![St(2, 0, 3)],
        vec![Ld(0, 3, 1)],
        vec![Push(2)],
        vec![Pop(1)],
        vec![ir(0x1234_5678, 8)],
        vec![Cmov(4, 1, 6)],
        vec![J(4, T::L(0)), Lab(0)],
        vec![J(3, T::Abs(0x300))],
        vec![Call(T::L(0)), Lab(0)],
        vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)],
        vec![Op(0, 2, RSP)],
    ]
}
fn suffixes() -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![Nop],
        vec![Op(0, 1, 2)],
        vec![St(1, 0, 3)],
        vec![Push(1)],
        vec![Pop(2)],
        vec![ir(0xbad, 1)],
        vec![Halt],
        vec![Raw(vec![0xf0])],
        vec![J(0, T::Abs(0x300))],
        vec![Ld(0, 9, 1)],
        vec![Call(T::Abs(0x300))],
        vec![Ret],
    ]
}

fn fault_fams(
    thorough: bool,
) -> Vec<(
    &'static str,
    usize,
    Box<dyn Fn(usize) -> Option<(Vec<I>, Mem)> + Sync>,
)> {
    let (sp, pf, sf) = (stoppers(), prefixes(), suffixes());
    let (ns, np, nf) = (sp.len(), pf.len(), sf.len());
    let build = move |pre: &[&[I]], st: &[I], suf: &[&[I]]| {
        let mut p = vec![
            ir(0x700, RSP),
            ir(0x11, 1),
            ir(0x18, 2),
            ir(0x680, 3),
            ir(0x10000, 9),
            ir(0xffff, 10),
        ];
        let mut all: Vec<&[I]> = pre.to_vec();
        all.push(st);
        all.extend(suf);
        hazards::splice(&all, &mut p);
        let m = Image::new(&p)
            .with_prog(
                0x300,
                &[I::Op(0, 1, 2), ir(0x99, 6), I::St(6, 0x10, 3), I::Halt],
            )
            .load();
        (p, m)
    };
    let mut v: Vec<(
        &'static str,
        usize,
        Box<dyn Fn(usize) -> Option<(Vec<I>, Mem)> + Sync>,
    )> = vec![];
    {
        let (sp, pf, sf, build) = (sp.clone(), pf.clone(), sf.clone(), build);
        v.push((
            "one instruction before x stopper x two behind",
            np * ns * nf * nf,
            Box::new(move |i| {
                let mut d = Dig(i);
                let (s, a, b, c) = (d.d(ns), d.d(np), d.d(nf), d.d(nf));
                Some(build(&[&pf[a]], &sp[s], &[&sf[b], &sf[c]]))
            }),
        ));
    }
    {
        let (sp, pf, sf, build) = (sp.clone(), pf.clone(), sf.clone(), build);
        v.push((
            "two before x stopper x one behind",
            np * np * ns * nf,
            Box::new(move |i| {
                let mut d = Dig(i);
                let (s, a, b, c) = (d.d(ns), d.d(np), d.d(np), d.d(nf));
                Some(build(&[&pf[a], &pf[b]], &sp[s], &[&sf[c], &sf[1], &sf[2]]))
            }),
        ));
    }
    if thorough {
        v.push((
            "three before x stopper x two behind",
            np * np * np * ns * nf * 3,
            Box::new(move |i| {
                let mut d = Dig(i);
                let (s, a, b, c, e, f) = (d.d(ns), d.d(np), d.d(np), d.d(np), d.d(nf), d.d(3));
                Some(build(
                    &[&pf[a], &pf[b], &pf[c]],
                    &sp[s],
                    &[&sf[e], &sf[[1, 2, 5][f]]],
                ))
            }),
        ));
    }
    v
}

/// Every kind of stop with the stopping instruction at every address.
fn stops_everywhere<F>(ctx: &Arc<Ctx>, archs: &[&str], run: F)
where
    F: Fn(&str, &Mem) -> Result<RunStat, String> + Sync,
{
    use I::*;
    // register 9 holds an address outside memory, 8 as stack pointer is below the memory
    let st: Vec<(u64, Vec<I>)> = vec![
        (0x700, vec![Halt]),
        (0x700, vec![Raw(vec![0xf0])]),
        (0x700, vec![St(1, 0, 9)]),
        (0x700, vec![Ld(0, 9, 7)]),
        (4, vec![Push(1)]),
        (0xfff9, vec![Pop(2)]),
        (0, vec![Call(T::Abs(0x300))]),
        (0xffff, vec![Ret]),
        (0x700, vec![J(0, T::Abs(0x10000))]),
        (0x700, vec![J(4, T::Abs(u64::MAX)), Halt]),
    ];
    let n = st.len();
    let q = ctx.pick(3, 1);
    standalone(
        ctx,
        "every kind of stop at every address",
        0xfff7 * n / q,
        |i| {
            // quick: a third of the kinds at each address, all of them at each residue of nine
            let i = if q == 1 { i } else { i * q + (i / 9) % q };
            let (at, k) = (9 + (i / n) as u64, i % n);
            let setup = if (0x2000..0xa000).contains(&at) { 0x1000 } else { 0x8000u64 };
            let mut p = vec![
                ir(st[k].0, RSP),
                ir(0x11, 1),
                ir(0x10000, 9),
                ir(0x600, 3),
                Op(3, 2, 2),
                Op(1, 1, 2),
                St(1, 0, 3),
                Ld(0, 3, 6),
            ];
            p.push(J(0, T::Abs(at)));
            let mut body = st[k].1.clone();
            body.extend([Op(0, 1, 1), St(1, 8, 3)]);
            let mut e = encode(&body, at);
            e.truncate(MEM - at as usize);
            let m = Image::new(&[J(0, T::Abs(setup))]).with_prog(setup, &p).with(at, e).load();
            Some((p, m))
        },
        archs,
        &run,
    );
}

pub fn c07(ctx: &Arc<Ctx>) {
    let o = Opts {
        ..Default::default()
    };
    for (name, n, g) in fault_fams(ctx.thorough()) {
        standalone(ctx, name, n, g, &ARCHS, |a, m| run_any(a, m, 200, &o));
    }
    stops_everywhere(ctx, &ARCHS, |a, m| run_any(a, m, 200, &o));
    ctx.assume(
        "registers that the faulting instruction names as its own destination are not compared",
    );
    ctx.note("oracle", json!("registers every cycle and at the stop, all of memory and the condition codes at the stop"));
}

pub fn c08(ctx: &Arc<Ctx>) {
    let o = Opts {
        stat: true,
        ..Default::default()
    };
    ctx.assume("encodings the assembler never emits (function code or register specifier out of range): no crash within 60 cycles, verdict not compared");
    // circuits on images whose execution may contain odd encodings
    let run = |a: &str, m: &Mem| -> Result<RunStat, String> {
        let rr = ref_run(m, 400, false);
        if rr.odd {
            return match guard(|| {
                let mut s = new_sim(a, m);
                let mut k = 0;
                while !s.sim.is_terminate() && k < 60 {
                    s.sim.step();
                    k += 1;
                }
                RunStat {
                    cycles: k,
                    states: k,
                    ..Default::default()
                }
            }) {
                Ok(s) => Ok(s),
                Err(p) => Err(format!("{a} crashed: {p}")),
            };
        }
        run_any(a, m, 400, &o)
    };
    let st = setups();
    let words: &[u64] = if ctx.thorough() { &WORDS } else { &WORDS[4..5] };
    let nw = words.len();
    standalone(
        ctx,
        "all 65536 first two bytes x operand word, at address 0",
        65536 / ctx.pick(2, 1) * nw,
        |i| {
            let (b, w) = (i / nw, words[i % nw]);
            let b = if ctx.thorough() { b } else { quick_pair(b) };
            let m = raw_image((b >> 8) as u8, b as u8, w, 0, &[])?;
            Some((vec![I::Raw(m[..11].to_vec())], m))
        },
        &ARCHS,
        run,
    );
    let b1s: Vec<u8> = (0..=255u8)
        .filter(|b| {
            if ctx.thorough() {
                (b & 15 == 4) || (b >> 4 == 4) || b & 15 == 15 || b >> 4 == 15 || *b < 32
            } else {
                [0x02, 0x24, 0x42, 0xf4].contains(b)
            }
        })
        .collect();
    let words: &[u64] = if ctx.thorough() { &WORDS } else { &WORDS[2..4] };
    let (n1, ns, nw) = (b1s.len(), st.len(), words.len());
    // quick: all first bytes once, then only defined instructions
    standalone(
        ctx,
        "first byte x second byte x operand word x register contents",
        208 * n1 * nw * ns,
        |i| {
            let mut d = Dig(i);
            let (w, s, b1, b0) = (words[d.d(nw)], &st[d.d(ns)], b1s[d.d(n1)], d.d(208) as u8);
            if !ctx.thorough() && b0 & 15 > 1 && !(b0 >> 4 == 6 && b0 & 15 < 4) {
                return None;
            }
            let at = encode(s, 0).len() as u64;
            let m = raw_image(b0, b1, w, at, s)?;
            Some((vec![I::Raw(m[..at as usize + 11].to_vec())], m))
        },
        &ARCHS,
        run,
    );
    // the same with every log record evaluated
    let l1 = [0x00u8, 0x24, 0x42, 0x4f, 0xf3, 0xff];
    standalone(
        ctx,
        "first byte x second byte x register contents, with all logs",
        256 * l1.len() * ns,
        |i| {
            let mut d = Dig(i);
            let (s, b1, b0) = (&st[d.d(ns)], l1[d.d(l1.len())], d.d(256) as u8);
            let at = encode(s, 0).len() as u64;
            let m = raw_image(b0, b1, 0x100, at, s)?;
            Some((vec![I::Raw(m[..at as usize + 11].to_vec())], m))
        },
        &ARCHS,
        |a, m| logged(|| run(a, m)),
    );
    let ends: Vec<u64> = (0xfff0..=0xffffu64).collect();
    let ne = ends.len();
    standalone(
        ctx,
        "instructions at every address near the end of memory",
        ne * 16 * 2 * 3 * 2,
        |i| {
            let mut d = Dig(i);
            let (s, b1, at, b0, sled) = (
                &st[d.d(2)],
                [0x01u8, 0x4f, 0xf3][d.d(3)],
                ends[d.d(ne)],
                (d.d(16) * 16) as u8,
                d.d(2),
            );
            let mut m = raw_image(b0, b1, 0x100, at, s)?;
            let k = (at + ilen(b0 >> 4)) as usize;
            if sled == 1 {
                for a in k..MEM {
                    m[a] = 0x10;
                }
            }
            Some((vec![I::Raw(vec![b0, b1])], m))
        },
        &ARCHS,
        run,
    );
    memory_accesses(ctx, &ARCHS, run);
    stack_ends(ctx, &ARCHS, run);
    stops_everywhere(ctx, &ARCHS, run);
    let l = sweeps();
    standalone(
        ctx,
        "address sweeps",
        l.len(),
        |i| Some(l[i].clone()),
        &ARCHS,
        |a, m| run_any(a, m, 2_000_000, &o),
    );
    let mut tg: Vec<u64> = vec![
        0x100,
        0xfff7,
        0xfff8,
        0xfff9,
        0xfffe,
        0xffff,
        0x10000,
        0x10001,
        1 << 31,
        1 << 32,
        MAX,
        MIN,
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 8,
        u64::MAX - 9,
        u64::MAX - 10,
    ];
    tg.extend(mined());
    tg.retain(|&x| x >= 0x80);
    let nt = tg.len();
    standalone(
        ctx,
        "jump, call and return to every kind of address",
        nt * 5,
        |i| {
            let (t, k) = (tg[i / 5], i % 5);
            let p = match k {
                0 => vec![I::J(0, T::Abs(t))],
                1 => vec![ir(0x80, RSP), I::Call(T::Abs(t))],
                2 => vec![ir(0x80, RSP), ir(t, 0), I::Push(0), I::Ret],
                3 => vec![I::J(4, T::Abs(t)), I::Halt],
                _ => vec![I::Op(3, 0, 0), I::J(4, T::Abs(t)), I::Nop, I::Halt],
            };
            let m = Image::new(&p).load();
            Some((p, m))
        },
        &ARCHS,
        run,
    );
    // wrong-path and stop combinations also must give the exact status
    for (name, n, g) in fault_fams(false) {
        let q = ctx.pick(6, 1);
        standalone(ctx, name, n / q, |i| g(i * q + i % q), &ARCHS, run);
    }
}

/// The quick tier covers all second bytes of the defined function codes and all first bytes with 0 <= ifun < 8.
fn quick_pair(i: usize) -> usize {
    let b1 = i & 255;
    let k = i >> 8; // 0..128
    let icode = k >> 3;
    let ifun = k & 7;
    (icode << 12) | (ifun << 8) | b1
}

// ---------------------------------------------------------------- timing

pub fn c09(ctx: &Arc<Ctx>) {
    let mined = mined();
    let o = Opts {
        timing: true,
        ..Default::default()
    };
    let run = |a: &str, m: &Mem, max: u64| run_any(a, m, max, &o);
    let r = [RAX, RBX, RCX];
    batched(
        ctx,
        &hazards::sequences(
            "all sequences over the hazard alphabet",
            hazards::alphabet(r),
            r,
            ctx.pick(4, 5),
        ),
        &ARCHS,
        run,
    );
    batched(
        ctx,
        &hazards::sequences(
            "all sequences over the small hazard alphabet",
            hazards::alphabet_small([14, 9, RSP]),
            [14, 9, RSP],
            3,
        ),
        &ARCHS,
        run,
    );
    for f in hazards::single_producer() {
        batched(ctx, &f, &["pipe_std"], run);
    }
    for f in hazards::branches(false)
        .into_iter()
        .chain(hazards::returns(false))
    {
        batched(ctx, &f, &["pipe_std"], run);
    }
    batched(ctx, &transfers(ctx.pick(5, 6)), &ARCHS, run);
    batched(
        ctx,
        &general(ctx.pick(4, 5), [RAX, RBX, RDX]),
        &["pipe_std"],
        run,
    );
    for f in single(&mined, false) {
        if f.n < 40_000 || ctx.thorough() {
            batched(ctx, &f, &["pipe_std"], run);
        }
    }
    for f in loops(60) {
        batched(ctx, &f, &ARCHS, run);
    }
    let l = sleds(&[400_000, 40_000, 10_000]);
    standalone(
        ctx,
        "sleds through all of memory, long loops",
        l.len(),
        |i| Some(l[i].clone()),
        &ARCHS,
        |a, m| run_any(a, m, 2_000_000, &o),
    );
    tours(ctx, &ARCHS, |a, m| run_any(a, m, 200_000, &o));
    // single instructions alone: exact small counts
    let g = hazards::sequences("", hazards::alphabet(r), r, 2);
    standalone(
        ctx,
        "hazard sequences of length 2, alone",
        g.n,
        |i| {
            (g.get)(i).map(|s| {
                let m = alone(&s);
                (s, m)
            })
        },
        &ARCHS,
        |a, m| run_any(a, m, 200, &o),
    );
    ctx.note("oracle", json!("cycles = n (seq, seq+); n + 4 + load/use + 2 * not-taken conditional jumps + 3 * returns (pipe), counted by the reference model"));
}
