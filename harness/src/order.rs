//! C10: evaluation orders. Every pair of independent nodes of a circuit is evaluated in both orders, small
//! circuits in all orders; the same program is run again in the same process and in others.
use crate::batch::*;
use crate::common::*;
use crate::fam::*;
use crate::hazards;
use crate::prog::*;
use serde_json::json;
use std::sync::Arc;
use y86_sim::architectures::create_sim;
use y86_sim::framework::{CpuSim, MemData};

pub const STD: [&str; 3] = ["seq_std", "seq_plus_std", "pipe_std"];

fn image_of(m: &[u8; 1 << 16]) -> Image {
    // segments over zero, so that it can be stored small
    let mut im = Image::default();
    let mut i = 0;
    while i < m.len() {
        if m[i] == 0 {
            i += 1;
            continue;
        }
        let k = i;
        let mut end = i;
        while i < m.len() && i - end < 32 {
            if m[i] != 0 {
                end = i;
            }
            i += 1;
        }
        im.segs.push((k as u64, m[k..=end].to_vec()));
        i = end + 1;
    }
    im
}

/// Programs that exercise all of a circuit: chained snippets of the families, and every way to stop.
pub fn programs(thorough: bool) -> Vec<Image> {
    let mut out = vec![];
    let mut fams: Vec<(Fam, usize)> = vec![];
    let k = if thorough { 6 } else { 1 };
    for f in single(&[], false) {
        fams.push((f, 24 * k));
    }
    for f in hazards::single_producer() {
        fams.push((f, 24 * k));
    }
    for f in hazards::double_producer(&[RAX, RSP]) {
        fams.push((f, 16 * k));
    }
    for f in hazards::branches(false)
        .into_iter()
        .chain(hazards::returns(false))
    {
        fams.push((f, 16 * k));
    }
    fams.push((general(3, [RAX, RBX, RDX]), 200 * k));
    for f in loops(20) {
        fams.push((f, 3));
    }
    let mut b = Batch::new();
    let mut steps = b.steps();
    for (f, want) in &fams {
        let n = f.n.min(*want);
        for i in 0..n {
            let Some(s) = (f.get)(i * f.n / n + (f.n / n) / 3) else {
                continue;
            };
            if b.try_add(&s) == Add::Full || b.steps() - steps > 250 {
                out.push(image_of(&b.img));
                b = Batch::new();
                steps = b.steps();
            }
        }
    }
    out.push(image_of(&b.img));
    for (i, s) in crate::cpu::stoppers().into_iter().enumerate() {
        let mut p = vec![
            ir(0x10_0000, 9),
            ir(0xffff, 10),
            ir(0x800, RSP),
            ir(7, RAX),
            I::Op(0, RAX, RAX),
        ];
        p.extend(s);
        p.extend([ir(1, RCX), I::St(RCX, 0x20, 11), I::Halt]);
        if i % 2 == 1 {
            p.remove(4);
        }
        out.push(image_of(&alone(&p)));
    }
    out
}

/// Programs that overwrite instructions ahead of, at and behind the store, at every distance.
pub fn self_modifying() -> Vec<Image> {
    let mut out = vec![];
    for dist in 0..14i64 {
        for back in [false, true] {
            for (v, _) in [
                (0x1010_1010_1010_1010u64, ""),
                (0, ""),
                (0x0000_0000_0005_f230, ""),
            ] {
                // irmovq v, rax; irmovq target, rbx; rmmovq rax, (rbx); nops; irmovq ...; halt
                let start = 0x1000u64;
                let at = start as i64 + 30 + if back { -dist } else { dist };
                let mut p = vec![ir(v, RAX), ir(at as u64, RBX), I::St(RAX, 0, RBX)];
                p.extend(vec![I::Nop; 8]);
                p.extend([ir(0x77, RCX), I::Op(0, RCX, RDX), I::Halt]);
                out.push(image_of(&alone(&p)));
            }
        }
    }
    out
}

fn hash(h: &mut u64, b: &[u8]) {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        *h = (*h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        *h ^= *h >> 29;
    }
}

pub struct Trace {
    /// one hash per cycle: registers, signals, program counter, termination (and memory, if asked)
    pub cyc: Vec<u64>,
    pub fetched: Vec<u64>,
    pub mem: Vec<u8>,
    pub panic: Option<String>,
}

fn observe(s: &(impl CpuSim + ?Sized), mem: Option<&MemData>) -> u64 {
    let mut h = 0x1234_5678u64;
    for r in s.registers() {
        hash(&mut h, &r.to_le_bytes());
    }
    hash(&mut h, &s.program_counter().to_le_bytes());
    hash(&mut h, &[s.is_terminate() as u8]);
    for st in s.get_stage_info() {
        hash(&mut h, st.name.as_bytes());
        for (n, v) in &st.signals {
            hash(&mut h, n.as_bytes());
            hash(&mut h, v.as_bytes());
        }
    }
    if let Some(m) = mem {
        hash(&mut h, &*m.read());
    }
    h
}

fn load(im: &Image) -> MemData {
    let m = MemData::init([0; 1 << 16]);
    im.load_into(&mut m.write());
    m
}

fn run(s: &mut (impl CpuSim + ?Sized), mem: MemData, max: usize, deep: bool) -> Trace {
    let mut t = Trace {
        cyc: vec![],
        fetched: vec![],
        mem: vec![],
        panic: None,
    };
    let r = guard(|| {
        while t.cyc.len() < max && !s.is_terminate() {
            s.propagate_signals();
            t.cyc.push(observe(s, deep.then_some(&mem)));
            t.fetched.push(s.program_counter());
            if !s.is_terminate() {
                s.initiate_next_cycle();
            }
        }
    });
    t.panic = r.err();
    t.mem = mem.read().to_vec();
    t
}

fn plain(arch: &str, im: &Image, max: usize, deep: bool) -> Trace {
    let mem = load(im);
    let mut s = create_sim(arch.to_string(), mem.clone(), false);
    run(&mut *s, mem, max, deep)
}

fn same(a: &Trace, b: &Trace) -> Result<(), String> {
    if let Some(c) = a.cyc.iter().zip(&b.cyc).position(|(x, y)| x != y) {
        return Err(format!(
            "registers, signals or termination differ in cycle {}",
            c + 1
        ));
    }
    if a.cyc.len() != b.cyc.len() {
        return Err(format!(
            "one run ends after {} cycles, the other after {}",
            a.cyc.len(),
            b.cyc.len()
        ));
    }
    if a.panic.is_some() != b.panic.is_some() {
        return Err(format!("one run panics: {:?} {:?}", a.panic, b.panic));
    }
    let (x, y) = (&a.mem, &b.mem);
    match (0..1 << 16).find(|i| x[*i] != y[*i]) {
        Some(i) => Err(format!(
            "memory at {i:#x} differs: {:#x} and {:#x}",
            x[i], y[i]
        )),
        None => Ok(()),
    }
}

const MAX: usize = 1500;

/// Lines to compare between processes.
pub fn child(thorough: bool) {
    let mut progs = programs(thorough);
    progs.extend(self_modifying());
    for (i, p) in progs.iter().enumerate() {
        for a in STD {
            let t = plain(a, p, MAX, false);
            let mut h = 1;
            for c in &t.cyc {
                hash(&mut h, &c.to_le_bytes());
            }
            hash(&mut h, &t.mem);
            println!("{i} {a} {} {h:016x} {}", t.cyc.len(), t.panic.is_some());
        }
    }
    // the order itself is part of what is shown
    for a in STD {
        let s = create_sim(a.into(), MemData::init([0; 1 << 16]), false);
        println!("{a} {} {:?}", s.cycle_cost(), s.proporder().to_string());
    }
}

fn processes(ctx: &Arc<Ctx>) {
    let n = ctx.pick(12, 48);
    let mut progs = programs(ctx.thorough());
    progs.extend(self_modifying());
    let exe = std::env::current_exe().unwrap();
    let outs = std::sync::Mutex::new(vec![]);
    ctx.hang_secs
        .store(600, std::sync::atomic::Ordering::Relaxed);
    ctx.par(n, |_| {
        let o = std::process::Command::new(&exe)
            .arg("C10-child")
            .env(
                "VERIF_TIER",
                if ctx.thorough() { "thorough" } else { "quick" },
            )
            .output()
            .expect("child");
        assert!(
            o.status.success(),
            "child failed: {}",
            String::from_utf8_lossy(&o.stderr)
        );
        outs.lock()
            .unwrap()
            .push(String::from_utf8_lossy(&o.stdout).into_owned());
    });
    let outs = outs.into_inner().unwrap();
    let lines: Vec<Vec<&str>> = outs.iter().map(|o| o.lines().collect()).collect();
    for (k, l) in lines.iter().enumerate() {
        for (i, x) in l.iter().enumerate() {
            if lines[0][i] != *x {
                // the listing of the order (last lines) may differ in the order inside a level only
                if i >= progs.len() * 3 {
                    continue;
                }
                let w: Vec<&str> = x.split(' ').collect();
                let p = &progs[w[0].parse::<usize>().unwrap()];
                ctx.violation(Viol::new(
                    format!("{}: the run of a program differs between two processes: {:?} and {x:?} (index, architecture, cycles, digest)", w[1], lines[0][i]),
                    format!("process {}", w[1]),
                    json!({"arch": w[1], "program": p.json(), "process": k}),
                ));
                return;
            }
        }
        ctx.add(l.len() as u64, 0, l.len() as u64);
    }
    ctx.outcome(
        "program runs compared between processes",
        (n * progs.len() * 3) as u64,
    );
    ctx.note("processes", json!(n));
}

pub fn c10(ctx: &Arc<Ctx>) {
    processes(ctx);
    if ctx.stopped() {
        return;
    }
    // again in the same process, memory compared in every cycle
    let mut progs = programs(ctx.thorough());
    progs.extend(self_modifying());
    ctx.par(progs.len() * 3, |j| {
        let (a, p) = (STD[j % 3], &progs[j / 3]);
        ctx.begin(|| json!({"arch": a, "program": p.json()}));
        let (x, y) = (plain(a, p, 300, true), plain(a, p, 300, true));
        ctx.end();
        if let Err(e) = same(&x, &y) {
            ctx.violation(Viol::new(
                format!("{a}: two runs of a program in one process: {e}"),
                format!("twice {a}"),
                json!({"arch": a, "program": p.json()}),
            ));
        }
        ctx.add(x.cyc.len() as u64, 2 * x.cyc.len() as u64, 1);
        ctx.outcome("program runs repeated in a process", 1);
    });
    #[cfg(y86_verif)]
    hooked::orders(ctx);
    #[cfg(not(y86_verif))]
    ctx.note(
        "reduced",
        json!("the hook does not compile on this tree: evaluation orders were not permuted"),
    );
}

#[cfg(y86_verif)]
pub use hooked::c11_archs;

#[cfg(y86_verif)]
mod hooked {
    use super::*;
    use crate::hclc::accepted;
    use crate::refhcl::{ports, Hcl};
    use std::collections::{BTreeMap, BTreeSet};
    use y86_sim::architectures::verif;
    use y86_sim::framework::PropOrder;

    /// The runnable nodes of a circuit and which of them each one depends on, through ports.
    struct Graph {
        names: Vec<&'static str>,
        before: Vec<Vec<bool>>,
    }

    fn graph(o: &mut PropOrder) -> Graph {
        let edges: Vec<(String, String)> = o.verif_edges().to_vec();
        let names: Vec<&'static str> = o.verif_items().iter().map(|i| i.name).collect();
        let mut rev: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        for (a, b) in &edges {
            rev.entry(b).or_default().push(a);
        }
        let before = names
            .iter()
            .map(|n| {
                let mut seen: BTreeSet<&str> = BTreeSet::new();
                let mut todo = vec![*n];
                while let Some(x) = todo.pop() {
                    for y in rev.get(x).into_iter().flatten() {
                        if seen.insert(y) {
                            todo.push(y);
                        }
                    }
                }
                names.iter().map(|m| seen.contains(m)).collect()
            })
            .collect();
        Graph { names, before }
    }

    fn graph_of(kind: &str) -> Graph {
        let mut g = None;
        verif::create(kind, MemData::init([0; 1 << 16]), &mut |o| {
            g = Some(graph(o))
        });
        g.unwrap()
    }

    /// Orders in which every two independent nodes occur both ways round.
    fn both_ways(g: &Graph) -> Vec<Vec<usize>> {
        let n = g.names.len();
        let topo = |rev: bool| {
            let mut done = vec![false; n];
            let mut o = vec![];
            while o.len() < n {
                let ready = |i: &usize| !done[*i] && (0..n).all(|k| !g.before[*i][k] || done[k]);
                let i = if rev {
                    (0..n).rev().find(ready)
                } else {
                    (0..n).find(ready)
                }
                .expect("cyclic order");
                done[i] = true;
                o.push(i);
            }
            o
        };
        let mut out = BTreeSet::new();
        for base in [topo(false), topo(true)] {
            out.insert(base.clone());
            for v in 0..n {
                let (mut a, mut b): (Vec<usize>, Vec<usize>) =
                    base.iter().partition(|k| g.before[v][**k]);
                b.retain(|k| *k != v);
                a.push(v);
                a.extend(b);
                out.insert(a);
                let (mut a, mut b): (Vec<usize>, Vec<usize>) =
                    base.iter().partition(|k| **k != v && !g.before[**k][v]);
                b.retain(|k| *k != v);
                a.push(v);
                a.append(&mut b);
                out.insert(a);
            }
        }
        // the claim itself
        let out: Vec<Vec<usize>> = out.into_iter().collect();
        let mut seen = vec![vec![false; n]; n];
        for o in &out {
            for i in 0..n {
                for j in i + 1..n {
                    assert!(!g.before[o[i]][o[j]], "not an order");
                    seen[o[i]][o[j]] = true;
                }
            }
        }
        for i in 0..n {
            for j in 0..n {
                assert!(i == j || g.before[i][j] || seen[i][j]);
            }
        }
        out
    }

    fn arrange(o: &mut PropOrder, g: &Graph, perm: &[usize]) {
        let items = o.verif_items();
        let mut old: Vec<_> = items.drain(..).map(Some).collect();
        let at: BTreeMap<&str, usize> = old
            .iter()
            .enumerate()
            .map(|(i, x)| (x.as_ref().unwrap().name, i))
            .collect();
        let idx: Vec<usize> = perm.iter().map(|k| at[g.names[*k]]).collect();
        for i in idx {
            items.push(old[i].take().unwrap());
        }
    }

    fn ordered(kind: &str, im: &Image, g: &Graph, perm: &[usize], max: usize, deep: bool) -> Trace {
        let mem = load(im);
        let mut s = verif::create(kind, mem.clone(), &mut |o| arrange(o, g, perm)).unwrap();
        run(&mut *s, mem, max, deep)
    }

    fn report(ctx: &Ctx, kind: &str, im: &Image, g: &Graph, perm: &[usize], e: String) {
        ctx.violation(Viol::new(
            format!("{kind}: with another evaluation order {e}"),
            format!("order {kind}"),
            json!({"arch": kind, "program": im.json(), "order": perm.iter().map(|k| g.names[*k]).collect::<Vec<_>>()}),
        ));
    }

    /// bytes that are fetched (also on a wrong path) and written
    fn modifies_fetched(t: &Trace, im: &Image) -> bool {
        let before = load(im);
        let (b, a) = (before.read(), &t.mem);
        t.fetched.iter().any(|pc| {
            (0..10).any(|k| {
                pc.checked_add(k)
                    .is_some_and(|x| x < 1 << 16 && a[x as usize] != b[x as usize])
            })
        })
    }

    pub fn orders(ctx: &Arc<Ctx>) {
        let progs = programs(ctx.thorough());
        for kind in STD {
            let g = graph_of(kind);
            let os = both_ways(&g);
            let base: Vec<usize> = (0..g.names.len()).collect();
            let pairs: usize = (0..base.len())
                .map(|i| {
                    (0..i)
                        .filter(|j| !g.before[i][*j] && !g.before[*j][i])
                        .count()
                })
                .sum();
            ctx.note(
                &format!("{kind}: nodes, independent pairs, orders"),
                json!([base.len(), pairs, os.len()]),
            );
            let todo: Vec<&Image> = progs
                .iter()
                .filter(|p| {
                    let t = ordered(kind, p, &g, &base, MAX, false);
                    let m = modifies_fetched(&t, p);
                    if m {
                        ctx.skipped
                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    !m
                })
                .collect();
            let parts = 24;
            ctx.par(todo.len() * parts, |j| {
                let (p, part) = (todo[j / parts], j % parts);
                ctx.begin(
                    || json!({"arch": kind, "program": p.json(), "part of the orders": part}),
                );
                // short programs: memory in every cycle
                let b = ordered(kind, p, &g, &base, MAX, false);
                let deep = b.cyc.len() < 40;
                let b = if deep {
                    ordered(kind, p, &g, &base, MAX, true)
                } else {
                    b
                };
                for o in os.iter().skip(part).step_by(parts) {
                    let t = ordered(kind, p, &g, o, MAX, deep);
                    ctx.add(t.cyc.len() as u64, t.cyc.len() as u64, 1);
                    if let Err(e) = same(&b, &t) {
                        return report(ctx, kind, p, &g, o, e);
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
                ctx.end();
            });
            ctx.outcome(
                &format!("{kind}: programs x orders"),
                (todo.len() * os.len()) as u64,
            );
            if ctx.stopped() {
                return;
            }
        }
        // generated architectures
        let mut envs = vec![];
        for k in 0..8u8 {
            let mut b = vec![
                k & 1,
                k >> 1 & 1,
                k >> 2 & 1,
                (k % 3 == 0) as u8,
                k,
                k ^ 3,
                1,
                0,
            ];
            b.extend((k as u64).wrapping_mul(0x1111_1111_1111).to_le_bytes());
            b.extend(((k & 1) as u64).to_le_bytes());
            envs.push(b);
        }
        let multi = |kind: &str, f: &mut dyn FnMut(&mut PropOrder)| -> Trace {
            let mem = MemData::init([0; 1 << 16]);
            let mut s = verif::create(kind, mem.clone(), f).unwrap();
            let mut t = Trace {
                cyc: vec![],
                fetched: vec![],
                mem: vec![],
                panic: None,
            };
            let r = guard(|| {
                for e in &envs {
                    mem.write()[..24].copy_from_slice(e);
                    s.propagate_signals();
                    let mut h = observe(&*s, None);
                    hash(&mut h, &mem.read()[..0x208]);
                    t.cyc.push(h);
                    s.initiate_next_cycle();
                }
            });
            t.panic = r.err();
            t.mem = mem.read().to_vec();
            t
        };
        let none = Image::default();
        for (kind, ..) in verif::NAMES.iter().filter(|n| accepted(n.0)) {
            let g = graph_of(kind);
            // in larger ones only the orders around units
            let os = both_ways(&g);
            let base = multi(kind, &mut |_| {});
            let keep = if g.names.len() > 60 && !kind.starts_with('w') {
                8
            } else {
                1
            };
            let os: Vec<_> = os.into_iter().step_by(keep).collect();
            ctx.par(os.len(), |j| {
                let t = multi(kind, &mut |o| arrange(o, &g, &os[j]));
                ctx.add(t.cyc.len() as u64, t.cyc.len() as u64, 1);
                if let Err(e) = same(&base, &t) {
                    report(ctx, kind, &none, &g, &os[j], e);
                }
            });
            ctx.outcome("generated architectures x orders", os.len() as u64);
        }
        // all orders of the small circuits
        let cap = ctx.pick(1_000_000u64, 10_000_000);
        for kind in ["o0", "o1", "o2"] {
            let g = graph_of(kind);
            let base = multi(kind, &mut |_| {});
            let n = g.names.len();
            // prefixes of a fixed length are the jobs
            let mut prefixes: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..5.min(n) {
                prefixes = prefixes
                    .into_iter()
                    .flat_map(|p| {
                        next(&g, &p)
                            .into_iter()
                            .map(move |k| [p.clone(), vec![k]].concat())
                            .collect::<Vec<_>>()
                    })
                    .collect();
            }
            let total: u64 = {
                // number of linear extensions, by the sets of nodes already placed
                let mut ways: BTreeMap<u64, u64> = [(0, 1)].into();
                for _ in 0..n {
                    let mut w2: BTreeMap<u64, u64> = BTreeMap::new();
                    for (s, c) in ways {
                        for k in 0..n {
                            if s >> k & 1 == 0 && (0..n).all(|j| !g.before[k][j] || s >> j & 1 == 1)
                            {
                                *w2.entry(s | 1 << k).or_default() += c;
                            }
                        }
                    }
                    ways = w2;
                }
                ways.into_values().sum()
            };
            let each = if total <= cap {
                u64::MAX
            } else {
                (cap / prefixes.len() as u64).max(1)
            };
            ctx.note(
                &format!("{kind}: orders in all, all are run"),
                json!([total, total <= cap]),
            );
            let done = std::sync::atomic::AtomicU64::new(0);
            ctx.par(prefixes.len(), |j| {
                let mut p = prefixes[j].clone();
                let mut left = each;
                ctx.begin(|| json!({"arch": kind, "prefix": p}));
                rec(ctx, kind, &g, &mut p, &mut left, &mut |perm| {
                    let t = multi(kind, &mut |o| arrange(o, &g, perm));
                    if let Err(e) = same(&base, &t) {
                        report(ctx, kind, &Image::default(), &g, perm, e);
                    }
                });
                done.fetch_add(each - left, std::sync::atomic::Ordering::Relaxed);
                ctx.end();
            });
            let d = done.into_inner();
            ctx.add(d, d, d);
            ctx.outcome(&format!("{kind}: orders run"), d);
        }
        ctx.assume("an order is compatible if every node comes after the nodes it depends on by the edges of the circuit; programs that write bytes that are fetched, also on a wrong path, are left out of the part about orders");
    }

    fn next(g: &Graph, p: &[usize]) -> Vec<usize> {
        (0..g.names.len())
            .filter(|k| {
                !p.contains(k) && (0..g.names.len()).all(|j| !g.before[*k][j] || p.contains(&j))
            })
            .collect()
    }

    #[allow(clippy::too_many_arguments)]
    fn rec(
        ctx: &Ctx,
        kind: &str,
        g: &Graph,
        p: &mut Vec<usize>,
        left: &mut u64,
        f: &mut dyn FnMut(&[usize]),
    ) {
        if *left == 0 || ctx.stopped() {
            return;
        }
        if p.len() == g.names.len() {
            *left -= 1;
            return f(p);
        }
        for k in next(g, p) {
            p.push(k);
            rec(ctx, kind, g, p, left, f);
            p.pop();
        }
    }

    /// C11 on circuits built by hcl! from texts with known dependencies.
    pub fn c11_archs(ctx: &Arc<Ctx>) {
        ctx.par(verif::NAMES.len(), |j| {
            let (name, hw, stages, text) = verif::NAMES[j];
            let bad = |t: String| ctx.violation(Viol::new(format!("architecture {name}: {t}"), format!("{name}: {t}"), json!({"architecture": name, "text": text})));
            let mut order: Option<(Vec<(Option<bool>, String, u32)>, u32)> = None;
            let mut err = None;
            let r = guard(|| {
                verif::create(name, MemData::init([0; 1 << 16]), &mut |o| match crate::circuit::read_order(o) {
                    Ok(x) => order = Some((x, o.verif_max_dist())),
                    Err(e) => err = Some(e),
                })
                .map(|s| s.cycle_cost())
            });
            ctx.add(1, 1, 1);
            if let Some(e) = err {
                return bad(e);
            }
            ctx.outcome(if accepted(name) { "texts of correct circuits" } else { "texts of cyclic or unconnected circuits" }, 1);
            match (accepted(name), r) {
                (false, Ok(_)) => return bad("a circuit whose dependencies are cyclic or which leaves a unit input open was accepted".into()),
                (true, Err(e)) => return bad(format!("a correct circuit was refused: {e}")),
                (false, Err(_)) => return,
                (true, Ok(c)) => {
                    if c != order.as_ref().map(|o| o.1 as u64) {
                        return bad(format!("cycle_cost is {c:?}, the order says {:?}", order.map(|o| o.1)));
                    }
                }
            }
            let (items, cost) = order.unwrap();
            let h = Hcl::parse(text, stages);
            // reference dependencies: signal -> signals and unit outputs it uses; unit -> signals driving its inputs
            let units = ports(hw);
            let mut before: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for (u, ..) in &units {
                before.insert(u.to_string(), BTreeSet::new());
            }
            for (i, s) in h.signals.iter().enumerate() {
                let (a, b) = h.uses(i);
                let e = before.entry(s.name.clone()).or_default();
                e.extend(a.into_iter().map(|k| h.signals[k].name.clone()));
                e.extend(b.into_iter().map(|k| k.0));
                for (u, _) in &s.units {
                    before.get_mut(u).unwrap().insert(s.name.clone());
                }
            }
            let mut level: BTreeMap<String, u32> = BTreeMap::new();
            fn lv(n: &str, b: &BTreeMap<String, BTreeSet<String>>, units: &[&str], l: &mut BTreeMap<String, u32>) -> u32 {
                if let Some(x) = l.get(n) {
                    return *x;
                }
                let x = b[n].iter().map(|m| lv(m, b, units, l)).max().unwrap_or(0) + units.contains(&n) as u32;
                l.insert(n.to_string(), x);
                x
            }
            let unames: Vec<&str> = units.iter().map(|u| u.0).collect();
            for n in before.keys() {
                lv(n, &before, &unames, &mut level);
            }
            if items.len() != before.len() {
                return bad(format!("{} nodes in the order, {} declared", items.len(), before.len()));
            }
            let pos: BTreeMap<&str, usize> = items.iter().enumerate().map(|(i, x)| (x.1.as_str(), i)).collect();
            for (n, b) in &before {
                let Some(p) = pos.get(n.as_str()) else { return bad(format!("{n} is not in the order")) };
                if items[*p].2 != level[n] {
                    return bad(format!("{n} has level {}, should have {}", items[*p].2, level[n]));
                }
                if let Some(m) = b.iter().find(|m| pos[m.as_str()] > *p) {
                    return bad(format!("{n} comes before {m}, on which it depends"));
                }
            }
            if cost != level.values().max().unwrap() + 1 {
                return bad(format!("the cost of a cycle is {cost}, should be {}", level.values().max().unwrap() + 1));
            }
        });
    }
}
