//! C11: every circuit up to a size is built and the result compared with the definition.
use crate::common::*;
use serde_json::{json, Value};
use std::sync::Arc;
use y86_sim::framework::{PropOrder, PropOrderBuilder};

/// A kind of circuit: units with their numbers of inputs and outputs, signals, and names nobody declares.
#[derive(Clone, Debug)]
struct Shape {
    units: Vec<(usize, usize)>,
    sigs: usize,
    /// undeclared names that are only sources
    free: usize,
    /// undeclared names that are sources and destinations
    via: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Node {
    Unit(usize),
    Sig(usize),
    Free(usize),
    Via(usize),
    In(usize, usize),
    Out(usize, usize),
}
use Node::*;

impl Shape {
    /// declared nodes and undeclared names
    fn ents(&self) -> Vec<Node> {
        (0..self.units.len())
            .map(Unit)
            .chain((0..self.sigs).map(Sig))
            .chain((0..self.free).map(Free))
            .chain((0..self.via).map(Via))
            .collect()
    }
    fn sources(&self) -> Vec<Node> {
        let mut v: Vec<Node> = vec![];
        for (u, (_, o)) in self.units.iter().enumerate() {
            v.extend((0..*o).map(|k| Out(u, k)));
        }
        v.extend((0..self.sigs).map(Sig));
        v.extend((0..self.via).map(Via));
        v.extend((0..self.free).map(Free));
        v
    }
    fn sinks(&self) -> Vec<Node> {
        let mut v: Vec<Node> = vec![];
        for (u, (i, _)) in self.units.iter().enumerate() {
            v.extend((0..*i).map(|k| In(u, k)));
        }
        v.extend((0..self.sigs).map(Sig));
        v.extend((0..self.via).map(Via));
        v
    }
    fn bits(&self) -> usize {
        self.sources().len() * self.sinks().len()
    }
}

/// Names in ascending order; an entity of rank k gets the k-th.
const POOLS: [[&str; 8]; 3] = [
    ["a", "b", "c", "d", "e", "f", "g", "h"],
    ["x", "x1", "x10", "x2", "xx", "xx_", "y", "y_x"],
    ["Zed", "_m", "aLong_name", "b", "b2", "imem", "in", "z"],
];
const PORTS: [&str; 4] = ["o", "a", "x", "zz"];

struct Names {
    rank: Vec<usize>,
    pool: usize,
}

struct Circuit<'a> {
    sh: &'a Shape,
    ents: &'a [Node],
    names: &'a Names,
    edges: Vec<(Node, Node)>,
}

#[derive(Debug)]
enum Want {
    /// why it has to be refused
    Refuse(&'static str),
    /// level of every declared node, in the order of `ents`
    Levels(Vec<Option<u32>>),
}

impl Circuit<'_> {
    fn base(&self, n: Node) -> &'static str {
        let i = self.ents.iter().position(|e| *e == n).unwrap();
        POOLS[self.names.pool][self.names.rank[i]]
    }
    fn name(&self, n: Node) -> String {
        match n {
            In(u, k) => format!("{}.{}", self.base(Unit(u)), PORTS[k]),
            Out(u, k) => format!("{}.{}", self.base(Unit(u)), PORTS[3 - k]),
            n => self.base(n).to_string(),
        }
    }
    /// nodes a node depends on directly
    fn before(&self, n: Node) -> Vec<Node> {
        let mut v: Vec<Node> = self
            .edges
            .iter()
            .filter(|e| e.1 == n)
            .map(|e| e.0)
            .collect();
        match n {
            Unit(u) => v.extend((0..self.sh.units[u].0).map(|k| In(u, k))),
            Out(u, _) => v.push(Unit(u)),
            _ => {}
        }
        v
    }
    fn want(&self) -> Want {
        for (u, (i, _)) in self.sh.units.iter().enumerate() {
            for k in 0..*i {
                if !self.edges.iter().any(|e| e.1 == In(u, k)) {
                    return Want::Refuse("a unit input has no source");
                }
            }
        }
        // longest chain in units, by recursion with a colour for cycle detection
        fn go(c: &Circuit, n: Node, done: &mut Vec<(Node, Option<u32>)>) -> Option<u32> {
            if let Some((_, l)) = done.iter().find(|x| x.0 == n) {
                return *l; // None: still open, a cycle
            }
            done.push((n, None));
            let k = done.len() - 1;
            let mut m = 0;
            for p in c.before(n) {
                m = m.max(go(c, p, done)?);
            }
            let l = m + matches!(n, Unit(_)) as u32;
            done[k].1 = Some(l);
            Some(l)
        }
        let mut done = vec![];
        let mut lv = vec![];
        for e in self.ents {
            match go(self, *e, &mut done) {
                Some(l) => lv.push(matches!(e, Unit(_) | Sig(_)).then_some(l)),
                None => return Want::Refuse("the dependencies are cyclic"),
            }
        }
        Want::Levels(lv)
    }
    /// the builder calls, in one of several orders
    fn build(&self, style: usize, twice: Option<Node>) -> Result<PropOrder, String> {
        guard(|| {
            let mut g = PropOrderBuilder::new();
            let mut edges = self.edges.clone();
            if style & 1 == 1 {
                edges.reverse();
            }
            let decl = |g: &mut PropOrderBuilder, e: Node| match e {
                Unit(u) => {
                    let n = self.base(e);
                    g.add_unit_node(n);
                    for k in 0..self.sh.units[u].0 {
                        g.add_unit_input(n, PORTS[k]);
                    }
                    for k in 0..self.sh.units[u].1 {
                        g.add_unit_output(n, PORTS[3 - k]);
                    }
                }
                Sig(_) => g.add_intermediate(self.base(e)),
                _ => {}
            };
            let conn = |g: &mut PropOrderBuilder, e: &(Node, Node)| {
                g.add_edge(self.name(e.0), self.name(e.1))
            };
            let mut ents = self.ents.to_vec();
            if style & 2 == 2 {
                ents.reverse();
            }
            match style >> 2 {
                0 => {
                    ents.iter().for_each(|e| decl(&mut g, *e));
                    edges.iter().for_each(|e| conn(&mut g, e));
                }
                1 => {
                    edges.iter().for_each(|e| conn(&mut g, e));
                    ents.iter().for_each(|e| decl(&mut g, *e));
                    // an edge may be given more than once
                    edges.iter().rev().for_each(|e| conn(&mut g, e));
                }
                _ => {
                    // as the macro does: the edges into a signal, then the signal
                    ents.iter()
                        .filter(|e| matches!(e, Unit(_)))
                        .for_each(|e| decl(&mut g, *e));
                    for e in ents.iter().filter(|e| !matches!(e, Unit(_))) {
                        edges
                            .iter()
                            .filter(|x| x.1 == *e)
                            .for_each(|x| conn(&mut g, x));
                        decl(&mut g, *e);
                        edges
                            .iter()
                            .filter(|x| x.0 == *e && matches!(x.1, In(..)))
                            .for_each(|x| conn(&mut g, x));
                    }
                    edges
                        .iter()
                        .filter(|x| matches!(x.1, In(..)) && !matches!(x.0, Sig(_)))
                        .for_each(|x| conn(&mut g, x));
                }
            }
            match twice {
                Some(Unit(u)) => decl(&mut g, Unit(u)),
                Some(Sig(s)) => decl(&mut g, Sig(s)),
                _ => {}
            }
            g.build()
        })
    }
    fn json(&self, style: usize) -> Value {
        json!({"units_inputs_outputs": self.sh.units, "names": self.ents.iter().map(|e| json!([format!("{e:?}"), self.name(*e)])).collect::<Vec<_>>(),
            "edges": self.edges.iter().map(|e| json!([self.name(e.0), self.name(e.1)])).collect::<Vec<_>>(), "order_of_calls": style})
    }
    fn check(&self, o: &mut PropOrder, lv: &[Option<u32>]) -> Result<(), String> {
        let items = read_order(o)?;
        let mut pos = vec![usize::MAX; self.ents.len()];
        for (k, (unit, name, level)) in items.iter().enumerate() {
            let Some(i) = self
                .ents
                .iter()
                .position(|e| matches!(e, Unit(_) | Sig(_)) && self.base(*e) == name)
            else {
                return Err(format!("the order contains {name}, which was not declared"));
            };
            if unit.is_some_and(|u| u != matches!(self.ents[i], Unit(_))) {
                return Err(format!("{name} is taken for the wrong kind"));
            }
            if pos[i] != usize::MAX {
                return Err(format!("{name} occurs twice in the order"));
            }
            pos[i] = k;
            if lv[i] != Some(*level) {
                return Err(format!(
                    "{name} has level {level}, should have {:?}",
                    lv[i].unwrap()
                ));
            }
        }
        for (i, e) in self.ents.iter().enumerate() {
            if lv[i].is_some() && pos[i] == usize::MAX {
                return Err(format!("{} is missing from the order", self.base(*e)));
            }
        }
        if !items.windows(2).all(|w| w[0].2 <= w[1].2) {
            return Err("the order is not grouped by level".into());
        }
        // dependencies between declared nodes, directly or through ports and undeclared names
        for (i, e) in self.ents.iter().enumerate() {
            if lv[i].is_none() {
                continue;
            }
            let mut todo = self.before(*e);
            let mut seen = vec![];
            while let Some(n) = todo.pop() {
                if seen.contains(&n) {
                    continue;
                }
                seen.push(n);
                if matches!(n, Unit(_) | Sig(_)) {
                    let j = self.ents.iter().position(|x| *x == n).unwrap();
                    if pos[j] > pos[i] {
                        return Err(format!(
                            "{} comes before {}, on which it depends",
                            self.base(*e),
                            self.base(n)
                        ));
                    }
                }
                todo.extend(self.before(n));
            }
        }
        if let Some(c) = cost(o) {
            let want = lv.iter().flatten().max().copied().unwrap_or(0) + 1;
            if c != want {
                return Err(format!("the cost of a cycle is {c}, should be {want}"));
            }
        }
        Ok(())
    }
}

/// (is it a unit, name, level) in evaluation order, from the listing and from the order itself.
pub fn read_order(o: &mut PropOrder) -> Result<Vec<(Option<bool>, String, u32)>, String> {
    let text = strip_ansi(&o.to_string());
    let mut out = vec![];
    let mut last = 0;
    for l in text.lines() {
        let Some(l) = l.trim().strip_prefix("lv.") else {
            continue;
        };
        let (n, names) = l.split_once(':').ok_or("listing without colon")?;
        let n: u32 = n.trim().parse().map_err(|_| "listing without level")?;
        if n == 0 || n <= last {
            return Err(format!("the listing is not grouped by level: {text:?}"));
        }
        last = n;
        out.extend(
            names
                .split_whitespace()
                .map(|x| (None, x.to_string(), n - 1)),
        );
    }
    #[cfg(y86_verif)]
    {
        let it: Vec<_> = o
            .verif_items()
            .iter()
            .map(|i| (Some(i.is_unit), i.name.to_string(), i.level))
            .collect();
        if it.len() != out.len() || it.iter().zip(&out).any(|(a, b)| a.1 != b.1 || a.2 != b.2) {
            return Err(format!(
                "the listing differs from the order: {text:?}, {it:?}"
            ));
        }
        out = it;
    }
    Ok(out)
}

#[allow(unused_variables)]
fn cost(o: &PropOrder) -> Option<u32> {
    #[cfg(y86_verif)]
    return Some(o.verif_max_dist());
    #[cfg(not(y86_verif))]
    None
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// all ways to interleave kinds: entities of one kind keep their order (the edge sets are all enumerated)
fn ranks(sh: &Shape) -> Vec<Vec<usize>> {
    // symmetric classes: units with the same ports, signals, free names
    let ents = sh.ents();
    let class = |n: &Node| match n {
        Unit(u) => (0, sh.units[*u].0, sh.units[*u].1),
        Sig(_) => (1, 0, 0),
        Free(_) => (2, 0, 0),
        _ => (3, 0, 0),
    };
    let mut out = vec![];
    fn rec(
        ents: &[Node],
        class: &dyn Fn(&Node) -> (usize, usize, usize),
        left: &mut Vec<usize>,
        cur: &mut Vec<usize>,
        out: &mut Vec<Vec<usize>>,
    ) {
        if left.is_empty() {
            let mut r = vec![0; ents.len()];
            for (k, e) in cur.iter().enumerate() {
                r[*e] = k;
            }
            out.push(r);
            return;
        }
        let mut used: Vec<(usize, usize, usize)> = vec![];
        for k in 0..left.len() {
            let e = left[k];
            let c = class(&ents[e]);
            if used.contains(&c) {
                continue;
            }
            used.push(c);
            left.remove(k);
            cur.push(e);
            rec(ents, class, left, cur, out);
            cur.pop();
            left.insert(k, e);
        }
    }
    rec(
        &ents,
        &class,
        &mut (0..ents.len()).collect(),
        &mut vec![],
        &mut out,
    );
    out
}

fn one(ctx: &Ctx, c: &Circuit, style: usize) -> Result<bool, Viol> {
    let w = c.want();
    let r = c.build(style, None);
    let bad = |t: String| Viol::new(t.clone(), t, c.json(style));
    match (w, r) {
        (Want::Refuse(why), Ok(_)) => Err(bad(format!("a circuit was accepted although {why}"))),
        (Want::Refuse(_), Err(_)) => Ok(false),
        (Want::Levels(_), Err(e)) => Err(bad(format!("a correct circuit was refused: {e}"))),
        (Want::Levels(lv), Ok(mut o)) => {
            c.check(&mut o, &lv).map_err(bad)?;
            let _ = ctx;
            Ok(true)
        }
    }
}

fn shapes() -> Vec<Shape> {
    let s = |units: &[(usize, usize)], sigs, free, via| Shape {
        units: units.to_vec(),
        sigs,
        free,
        via,
    };
    vec![
        s(&[], 0, 0, 0),
        s(&[(0, 0)], 1, 1, 0),
        s(&[(0, 2), (2, 0)], 1, 0, 0),
        s(&[(1, 1)], 1, 1, 1),
        s(&[(1, 1)], 2, 1, 0),
        s(&[], 3, 1, 0),
        s(&[], 2, 0, 2),
        s(&[], 4, 0, 0),
        s(&[(0, 1), (1, 0), (1, 1)], 1, 0, 0),
        s(&[(2, 1), (1, 2)], 0, 0, 0),
        s(&[(2, 2)], 1, 1, 0),
        s(&[(1, 1), (1, 1)], 1, 1, 0),
        s(&[(1, 1), (1, 1), (1, 1)], 0, 1, 0),
        s(&[(1, 1)], 3, 0, 0),
        s(&[(1, 1), (1, 1)], 2, 0, 0),
        s(&[(1, 1), (1, 1), (1, 1)], 1, 0, 0),
        s(&[(1, 1), (1, 1), (1, 1), (1, 1)], 0, 0, 0),
        s(&[(2, 1), (1, 2)], 1, 0, 0),
        s(&[(2, 2)], 2, 0, 0),
        s(&[(0, 1), (1, 1), (1, 0)], 2, 0, 0),
        // larger
        s(&[], 4, 1, 0),
        s(&[(1, 1)], 3, 1, 0),
        s(&[(1, 1), (1, 1)], 2, 1, 0),
        s(&[(1, 1), (1, 1), (1, 1)], 1, 1, 0),
        s(&[(1, 1), (1, 1), (1, 1), (1, 1)], 0, 1, 0),
        s(&[(2, 2), (1, 1)], 1, 1, 0),
        s(&[(0, 2), (2, 2), (2, 0)], 0, 1, 0),
    ]
}

pub fn c11(ctx: &Arc<Ctx>) {
    let shapes = shapes();
    let max = ctx.pick(16, 20);
    let mut circuits = 0u64;
    for sh in shapes.iter().filter(|s| s.bits() <= max) {
        let ents = sh.ents();
        let rk = ranks(sh);
        let (src, snk) = (sh.sources(), sh.sinks());
        let bits = sh.bits();
        let total = 1usize << bits;
        let chunk = 1usize << bits.min(9);
        let acc = std::sync::atomic::AtomicU64::new(0);
        let small = bits <= 12;
        ctx.par(total / chunk, |j| {
            ctx.begin(|| json!({"shape": format!("{sh:?}"), "first edge set": j * chunk}));
            for set in j * chunk..(j + 1) * chunk {
                let edges: Vec<(Node, Node)> = (0..bits)
                    .filter(|b| set >> b & 1 == 1)
                    .map(|b| (src[b / snk.len()], snk[b % snk.len()]))
                    .collect();
                for (ri, r) in rk.iter().enumerate() {
                    let variants: Vec<(usize, usize)> = if small {
                        (0..3).flat_map(|p| (0..12).map(move |s| (p, s))).collect()
                    } else {
                        vec![((set + ri) % 3, (set / 3 + ri) % 12)]
                    };
                    for (pool, style) in variants {
                        let names = Names {
                            rank: r.clone(),
                            pool,
                        };
                        let c = Circuit {
                            sh,
                            ents: &ents,
                            names: &names,
                            edges: edges.clone(),
                        };
                        match one(ctx, &c, style) {
                            Ok(a) => {
                                acc.fetch_add(a as u64, std::sync::atomic::Ordering::Relaxed);
                            }
                            Err(v) => {
                                ctx.violation(v);
                                return;
                            }
                        }
                        ctx.add(1, 1, 1);
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
            ctx.end();
        });
        circuits += total as u64 * rk.len() as u64;
        ctx.outcome("accepted", acc.into_inner());
        if ctx.stopped() {
            return;
        }
    }
    ctx.note("circuits", json!(circuits));
    ctx.note("largest_edge_space", json!(format!("2^{max}")));
    // declared twice: every node of every small circuit
    for sh in shapes.iter().filter(|s| s.bits() <= 9) {
        let ents = sh.ents();
        let (src, snk) = (sh.sources(), sh.sinks());
        let bits = sh.bits();
        ctx.par(1 << bits, |set| {
            let edges: Vec<(Node, Node)> = (0..bits)
                .filter(|b| set >> b & 1 == 1)
                .map(|b| (src[b / snk.len()], snk[b % snk.len()]))
                .collect();
            for e in &ents {
                for style in [0, 3, 5, 8] {
                    let names = Names {
                        rank: (0..ents.len()).collect(),
                        pool: set % 3,
                    };
                    let c = Circuit {
                        sh,
                        ents: &ents,
                        names: &names,
                        edges: edges.clone(),
                    };
                    if matches!(e, Unit(_) | Sig(_)) && c.build(style, Some(*e)).is_ok() {
                        ctx.violation(Viol::new(
                            format!("{:?} was declared twice and the circuit accepted", e),
                            "twice",
                            json!({"circuit": c.json(style), "twice": format!("{e:?}")}),
                        ));
                        return;
                    }
                    ctx.add(1, 1, 0);
                }
            }
        });
    }
    // one name for a unit and a signal
    for flip in [false, true] {
        let r = guard(|| {
            let mut g = PropOrderBuilder::new();
            if flip {
                g.add_intermediate("n");
            }
            g.add_unit_node("n");
            if !flip {
                g.add_intermediate("n");
            }
            g.build();
        });
        if r.is_ok() {
            ctx.violation(Viol::new(
                "a unit and a signal of one name were accepted",
                "same name",
                json!(flip),
            ));
        }
    }
    long(ctx);
    archs(ctx);
    ctx.assume("a circuit is given by the calls to PropOrderBuilder, as hcl! and define_units! generate them; refusal is a panic");
}

/// Long chains, ladders and fans: levels and costs far beyond the small circuits.
fn long(ctx: &Arc<Ctx>) {
    let lim = ctx.pick(40, 120);
    // past every small counter: 8 bits of level, and more
    let mut lens: Vec<usize> = (1..=lim).collect();
    lens.extend([254, 255, 256, 257, 258, 300, 513]);
    lens.extend(ctx.pick(&[1100][..], &[1025, 1100, 2100, 4200][..]));
    lens.reverse();
    let names: Vec<&'static str> = (0..lens[0])
        .map(|k| &*Box::leak(format!("n{k:04}").into_boxed_str()))
        .collect();
    let nm = |k: usize| -> &'static str { names[k] };
    // pattern: bit i of `pat` says whether node i of the chain is a unit; ladder: every node feeds the next two
    ctx.par(lens.len() * 8 * 3, |j| {
        let (len, pat, kind) = (lens[j / 24], j / 3 % 8, j % 3);
        if len > 600 && kind == 2 {
            return;
        }
        ctx.begin(|| json!({"length": len, "pattern": pat, "kind": kind}));
        let unit = |i: usize| match pat {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            3 => i % 3 != 0,
            4 => i < len / 2,
            5 => i >= len / 2,
            6 => i == len - 1,
            _ => i * i % 5 == 1,
        };
        for desc in [false, true] {
            let name = |i: usize| nm(if desc { len - 1 - i } else { i });
            let r = guard(|| {
                let mut g = PropOrderBuilder::new();
                let out = |i: usize| if unit(i) { format!("{}.o", name(i)) } else { name(i).to_string() };
                let inp = |i: usize| if unit(i) { format!("{}.i", name(i)) } else { name(i).to_string() };
                for i in 0..len {
                    let i = if pat % 2 == 1 { len - 1 - i } else { i };
                    if unit(i) {
                        g.add_unit_node(name(i));
                        g.add_unit_input(name(i), "i");
                        g.add_unit_output(name(i), "o");
                    } else {
                        g.add_intermediate(name(i));
                    }
                }
                for i in 0..len {
                    let from: Vec<usize> = match kind {
                        0 => (i > 0).then(|| i - 1).into_iter().collect(),
                        1 => (i.saturating_sub(2)..i).collect(),
                        _ => (0..i).filter(|k| k % 7 == 0 || k + 1 == i).collect(),
                    };
                    if from.is_empty() {
                        g.add_edge("start".into(), inp(i));
                    }
                    for f in from {
                        g.add_edge(out(f), inp(i));
                    }
                }
                g.build()
            });
            let bad = |t: String| ctx.violation(Viol::new(t.clone(), t, json!({"length": len, "pattern": pat, "kind": kind, "descending": desc})));
            let mut o = match r {
                Ok(o) => o,
                Err(e) => return bad(format!("a chain was refused: {e}")),
            };
            match read_order(&mut o) {
                Err(e) => return bad(e),
                Ok(it) => {
                    let mut level = 0;
                    if it.len() != len {
                        return bad(format!("{} of {len} nodes are in the order", it.len()));
                    }
                    for (i, x) in it.iter().enumerate() {
                        level += unit(i) as u32;
                        // every node depends on all nodes before it
                        if x.1 != name(i) || x.2 != level {
                            return bad(format!("at position {i} of a chain: {} with level {}, should be {} with {level}", x.1, x.2, name(i)));
                        }
                    }
                    if cost(&o).is_some_and(|c| c != level + 1) {
                        return bad(format!("the cost of a cycle is {:?}, should be {}", cost(&o), level + 1));
                    }
                }
            }
            ctx.add(1, len as u64, 1);
        }
        ctx.end();
    });
}

/// Compiled architectures: the cost they report, and (with the hook) the circuits hcl! builds from known texts.
fn archs(ctx: &Arc<Ctx>) {
    for a in y86_sim::architectures::arch_names() {
        let s = crate::arch::new_sim(a, &[0; 1 << 16]);
        let text = strip_ansi(&s.sim.proporder().to_string());
        let top = text
            .lines()
            .filter_map(|l| {
                l.trim()
                    .strip_prefix("lv.")?
                    .split(':')
                    .next()?
                    .parse::<u64>()
                    .ok()
            })
            .max();
        if top != Some(s.sim.cycle_cost()) {
            ctx.violation(Viol::new(
                format!(
                    "{a} reports the cost {} of a cycle; its highest level is {top:?}",
                    s.sim.cycle_cost()
                ),
                a,
                json!(text),
            ));
        }
    }
    #[cfg(y86_verif)]
    crate::order::c11_archs(ctx);
}

/// C28: the listing and the dependency graph of every small circuit.
pub fn c28(ctx: &Arc<Ctx>) {
    let max = ctx.pick(12, 16);
    for sh in shapes().iter().filter(|s| s.bits() <= max) {
        let ents = sh.ents();
        let rk = ranks(sh);
        let (src, snk) = (sh.sources(), sh.sinks());
        let total = 1usize << sh.bits();
        let chunk = total.min(32);
        ctx.par(total / chunk, |j| {
            let dir = crate::cli::Dir::new();
            for set in j * chunk..(j + 1) * chunk {
                let edges: Vec<(Node, Node)> = (0..sh.bits())
                    .filter(|b| set >> b & 1 == 1)
                    .map(|b| (src[b / snk.len()], snk[b % snk.len()]))
                    .collect();
                for (ri, r) in rk.iter().enumerate() {
                    let names = Names {
                        rank: r.clone(),
                        pool: (set + ri) % 3,
                    };
                    let c = Circuit {
                        sh,
                        ents: &ents,
                        names: &names,
                        edges: edges.clone(),
                    };
                    let Want::Levels(lv) = c.want() else { continue };
                    let style = (set / 3 + ri) % 12;
                    let Ok(mut o) = c.build(style, None) else {
                        continue; // C11
                    };
                    ctx.begin(|| c.json(style));
                    let units: Vec<&str> = ents.iter().filter(|e| matches!(e, Unit(_))).map(|e| c.base(*e)).collect();
                    let mut links: Vec<(String, String)> = edges.iter().map(|e| (c.name(e.0), c.name(e.1))).collect();
                    for (u, (i, k)) in sh.units.iter().enumerate() {
                        links.extend((0..*i).map(|p| (c.name(In(u, p)), c.name(Unit(u)))));
                        links.extend((0..*k).map(|p| (c.name(Unit(u)), c.name(Out(u, p)))));
                    }
                    let alone: Vec<String> = ents.iter().filter(|e| matches!(e, Unit(_) | Sig(_))).map(|e| c.name(*e)).collect();
                    let want = crate::show::Graph::new(&alone, &links, &units);
                    let r = c
                        .check(&mut o, &lv)
                        .and_then(|_| crate::show::listing(&o.to_string(), &units))
                        .and_then(|_| crate::show::graph(&dir, &o).and_then(|g| want.compare(&g)));
                    ctx.end();
                    if let Err(e) = r {
                        return ctx.violation(Viol::new(e.clone(), e, c.json(style)));
                    }
                    ctx.add(1, alone.len() as u64 + links.len() as u64, 1);
                    ctx.outcome("circuits shown", 1);
                }
                if ctx.stopped() {
                    return;
                }
            }
        });
    }
}
