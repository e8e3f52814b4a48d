//! Reference interpreter for the HCL dialect: parses the text of an architecture and evaluates a cycle of it.
//! Written from the language description (CS:APP HCL; README and the doc comments of the macros), not from the macro.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    B(bool),
    N(u64),
}

#[derive(Clone, Debug)]
pub enum E {
    Lit(V),
    /// signal (index)
    Sig(usize),
    /// field of a pipeline register: stage index, field index
    Reg(usize, usize),
    /// output of a unit: name of unit, name of port
    Out(String, String),
    Not(Box<E>),
    Rel(Box<E>, bool, Box<E>),
    In(Box<E>, Vec<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
}

#[derive(Clone, Debug)]
pub enum Src {
    Plain(E),
    Cases(Vec<(E, E)>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Bool,
    U8,
    U64,
}

#[derive(Clone, Debug)]
pub struct Signal {
    pub name: String,
    pub ty: Ty,
    pub src: Src,
    /// (unit, port) inputs it drives
    pub units: Vec<(String, String)>,
    /// (stage, field) it drives; field usize::MAX is stall, MAX-1 bubble
    pub regs: Vec<(usize, usize)>,
    /// part of the display it belongs to
    pub part: usize,
    /// in front of the first title
    pub early: bool,
}
pub const STALL: usize = usize::MAX;
pub const BUBBLE: usize = usize::MAX - 1;

#[derive(Clone, Debug)]
pub struct Stage {
    /// name as a destination
    pub name: String,
    /// name as a source, if it has one
    pub alias: Option<String>,
    pub fields: Vec<(String, Ty, V)>,
}

#[derive(Clone, Debug)]
pub struct Hcl {
    pub signals: Vec<Signal>,
    pub stages: Vec<Stage>,
    pub parts: Vec<String>,
    pub pc: usize,
    pub term: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Int(u64),
    Str(String),
    P(&'static str),
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            let k = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push(T::Id(s[k..i].into()));
        } else if c.is_ascii_digit() {
            let k = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t = s[k..i].replace('_', "");
            let t = if t.starts_with("0x") || !t.contains('u') {
                t.trim_end_matches("u64").trim_end_matches("u8")
            } else {
                t.split('u').next().unwrap()
            };
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2)
            } else {
                t.parse()
            };
            out.push(T::Int(v.unwrap_or_else(|_| panic!("number {t}"))));
        } else if c == b'"' {
            let k = i + 1;
            i += 1;
            while b[i] != b'"' {
                i += 1;
            }
            out.push(T::Str(s[k..i].into()));
            i += 1;
        } else {
            const PS: [&str; 22] = [
                "->", "=>", "==", "!=", "&&", "||", "{", "}", "(", ")", "[", "]", ";", ":", ",",
                ".", "=", "!", "#", "@", "-", "&",
            ];
            let p = PS
                .iter()
                .find(|p| s[i..].starts_with(**p))
                .unwrap_or_else(|| panic!("character {:?}", c as char));
            out.push(T::P(p));
            i += p.len();
        }
    }
    out
}

/// raw expression, before names are resolved
#[derive(Clone, Debug)]
enum R {
    Lit(V),
    Name(Vec<String>),
    Not(Box<R>),
    Rel(Box<R>, bool, Box<R>),
    In(Box<R>, Vec<R>),
    And(Box<R>, Box<R>),
    Or(Box<R>, Box<R>),
}

struct P {
    t: Vec<T>,
    i: usize,
}
impl P {
    fn peek(&self, p: &str) -> bool {
        matches!(self.t.get(self.i), Some(T::P(q)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.peek(p);
        self.i += r as usize;
        r
    }
    fn need(&mut self, p: &str) {
        assert!(
            self.eat(p),
            "expected {p} at {:?}",
            &self.t[self.i..(self.i + 8).min(self.t.len())]
        );
    }
    fn id(&mut self) -> String {
        match &self.t[self.i] {
            T::Id(s) => {
                self.i += 1;
                s.clone()
            }
            t => panic!("expected a name, got {t:?}"),
        }
    }
    fn name(&mut self) -> Vec<String> {
        let mut n = vec![self.id()];
        while self.eat(".") {
            n.push(self.id());
        }
        n
    }
    fn or(&mut self) -> R {
        let mut l = self.and();
        while self.eat("||") {
            l = R::Or(l.into(), self.and().into());
        }
        l
    }
    fn and(&mut self) -> R {
        let mut l = self.rel();
        while self.eat("&&") {
            l = R::And(l.into(), self.rel().into());
        }
        l
    }
    fn rel(&mut self) -> R {
        let l = self.unary();
        if self.eat("==") {
            R::Rel(l.into(), true, self.unary().into())
        } else if self.eat("!=") {
            R::Rel(l.into(), false, self.unary().into())
        } else if matches!(&self.t[self.i], T::Id(s) if s == "in") {
            self.i += 1;
            self.need("{");
            let mut v = vec![];
            while !self.eat("}") {
                v.push(R::Name(self.name()));
                if !self.eat(",") {
                    self.need("}");
                    break;
                }
            }
            R::In(l.into(), v)
        } else {
            l
        }
    }
    fn unary(&mut self) -> R {
        if self.eat("!") {
            return R::Not(self.unary().into());
        }
        if self.eat("(") {
            let e = self.or();
            self.need(")");
            return e;
        }
        match self.t[self.i].clone() {
            T::Int(v) => {
                self.i += 1;
                R::Lit(V::N(v))
            }
            T::Id(s) if s == "true" || s == "false" => {
                self.i += 1;
                R::Lit(V::B(s == "true"))
            }
            _ => R::Name(self.name()),
        }
    }
    fn attr(&mut self) {
        while self.eat("#") {
            self.need("[");
            while !self.eat("]") {
                self.i += 1;
            }
        }
    }
    /// `:====:` (the lexer splits it into : == == = :)
    fn boundary(&mut self) {
        self.need(":");
        let k = self.i;
        while self.eat("==") || self.eat("=") {}
        assert!(self.i > k);
        self.need(":");
    }
}

fn ty(s: &str) -> Ty {
    match s {
        "bool" => Ty::Bool,
        "u8" => Ty::U8,
        "u64" => Ty::U64,
        _ => panic!("type {s}"),
    }
}

fn constant(n: &str) -> Option<u64> {
    const INST: [&str; 13] = [
        "HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ",
        "POPQ", "IOPQ",
    ];
    const REG: [&str; 16] = [
        "RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12",
        "R13", "R14", "RNONE",
    ];
    const OP: [&str; 4] = ["ADD", "SUB", "AND", "XOR"];
    INST.iter()
        .position(|x| *x == n)
        .or(OP.iter().position(|x| *x == n))
        .or(REG.iter().position(|x| *x == n))
        .map(|x| x as u64)
}

impl Hcl {
    pub fn parse(text: &str, stages: &str) -> Hcl {
        // pipeline registers: `Name short { field: type = value, ... }`
        let mut p = P {
            t: lex(stages),
            i: 0,
        };
        let mut sts: Vec<Stage> = vec![];
        while p.i < p.t.len() {
            p.id();
            let name = p.id();
            p.need("{");
            let mut fields = vec![];
            while !p.eat("}") {
                let f = p.id();
                p.need(":");
                let t = ty(&p.id());
                p.need("=");
                let v = match p.unary() {
                    R::Lit(v) => v,
                    R::Name(n) => V::N(constant(&n[0]).unwrap()),
                    _ => unreachable!(),
                };
                fields.push((f, t, v));
                p.eat(",");
            }
            sts.push(Stage {
                name,
                alias: None,
                fields,
            });
        }
        let mut p = P { t: lex(text), i: 0 };
        let (mut pc, mut term) = (String::new(), String::new());
        let mut raw = vec![];
        let mut parts: Vec<String> = vec![];
        let mut sets = vec![];
        while p.i < p.t.len() {
            if p.eat("#") {
                p.need("!");
                p.need("[");
                match p.id().as_str() {
                    "stage_alias" => {
                        p.need("(");
                        while !p.eat(")") {
                            let a = p.id();
                            p.need("=>");
                            let b = p.id();
                            sts.iter_mut().find(|s| s.name == b).unwrap().alias = Some(a);
                            p.eat(",");
                        }
                    }
                    "program_counter" => {
                        p.need("=");
                        pc = p.id();
                    }
                    "termination" => {
                        p.need("=");
                        term = p.id();
                    }
                    o => panic!("attribute {o}"),
                }
                p.need("]");
            } else if p.peek(":") {
                p.boundary();
                let mut title = vec![];
                while !p.peek(":") {
                    match p.t[p.i].clone() {
                        T::Id(s) | T::Str(s) => title.push(s),
                        t => panic!("title {t:?}"),
                    }
                    p.i += 1;
                }
                p.boundary();
                parts.push(title.join(" "));
            } else if p.eat("@") {
                let kind = p.id();
                p.need("(");
                let target = p.id();
                p.need(",");
                p.need("{");
                while !p.eat("}") {
                    let f = p.id();
                    p.need(":");
                    let s = p.id();
                    sets.push((kind == "set_stage", target.clone(), f, s));
                    p.eat(",");
                }
                p.need(")");
                p.need(";");
            } else {
                let t = ty(&p.id());
                let name = p.id();
                p.need("=");
                let src = if p.eat("[") {
                    let mut cs = vec![];
                    while !p.eat("]") {
                        p.attr();
                        let c = p.or();
                        p.need(":");
                        let v = p.or();
                        cs.push((c, v));
                        if !p.eat(";") {
                            p.need("]");
                            break;
                        }
                    }
                    Err(cs)
                } else {
                    p.attr();
                    Ok(p.or())
                };
                let mut dests = vec![];
                if p.eat("->") {
                    if p.eat("(") {
                        while !p.eat(")") {
                            p.attr();
                            dests.push(p.name());
                            if !p.eat(",") {
                                p.need(")");
                                break;
                            }
                        }
                    } else {
                        p.attr();
                        dests.push(p.name());
                    }
                }
                p.need(";");
                raw.push((t, name, src, dests, parts.len()));
            }
        }
        let index: BTreeMap<String, usize> = raw
            .iter()
            .enumerate()
            .map(|(i, r)| (r.1.clone(), i))
            .collect();
        assert_eq!(index.len(), raw.len());
        let field = |st: usize, f: &str| match f {
            "stall" => STALL,
            "bubble" => BUBBLE,
            _ => sts[st]
                .fields
                .iter()
                .position(|x| x.0 == f)
                .unwrap_or_else(|| panic!("field {f}")),
        };
        fn resolve(r: &R, index: &BTreeMap<String, usize>, sts: &[Stage]) -> E {
            let go = |r: &R| Box::new(resolve(r, index, sts));
            match r {
                R::Lit(v) => E::Lit(*v),
                R::Name(n) if n.len() == 1 => match index.get(&n[0]) {
                    Some(i) => E::Sig(*i),
                    None => E::Lit(V::N(
                        constant(&n[0]).unwrap_or_else(|| panic!("name {n:?}")),
                    )),
                },
                R::Name(n) => match sts.iter().position(|s| s.alias.as_ref() == Some(&n[0])) {
                    Some(s) => E::Reg(s, sts[s].fields.iter().position(|f| f.0 == n[1]).unwrap()),
                    None => E::Out(n[0].clone(), n[1].clone()),
                },
                R::Not(a) => E::Not(go(a)),
                R::Rel(a, eq, b) => E::Rel(go(a), *eq, go(b)),
                R::In(a, l) => E::In(go(a), l.iter().map(|x| *go(x)).collect()),
                R::And(a, b) => E::And(go(a), go(b)),
                R::Or(a, b) => E::Or(go(a), go(b)),
            }
        }
        let mut signals: Vec<Signal> = raw
            .iter()
            .map(|(t, name, src, dests, part)| {
                let mut s = Signal {
                    name: name.clone(),
                    ty: *t,
                    src: match src {
                        Ok(e) => Src::Plain(resolve(e, &index, &sts)),
                        Err(c) => Src::Cases(
                            c.iter()
                                .map(|(a, b)| (resolve(a, &index, &sts), resolve(b, &index, &sts)))
                                .collect(),
                        ),
                    },
                    units: vec![],
                    regs: vec![],
                    part: part.saturating_sub(1),
                    early: *part == 0,
                };
                for d in dests {
                    match sts.iter().position(|st| st.name == d[0]) {
                        Some(st) => s.regs.push((st, field(st, &d[1]))),
                        None => s.units.push((d[0].clone(), d[1].clone())),
                    }
                }
                s
            })
            .collect();
        for (is_stage, target, f, s) in sets {
            let s = &mut signals[index[&s]];
            if is_stage {
                let st = sts.iter().position(|x| x.name == target).unwrap();
                s.regs.push((st, field(st, &f)));
            } else {
                s.units.push((target, f));
            }
        }
        Hcl {
            signals,
            stages: sts,
            parts,
            pc: index[&pc],
            term: index[&term],
        }
    }

    /// signals and units that a signal uses directly
    pub fn uses(&self, s: usize) -> (BTreeSet<usize>, BTreeSet<(String, String)>) {
        fn go(e: &E, a: &mut BTreeSet<usize>, b: &mut BTreeSet<(String, String)>) {
            match e {
                E::Lit(_) | E::Reg(..) => {}
                E::Sig(i) => {
                    a.insert(*i);
                }
                E::Out(u, p) => {
                    b.insert((u.clone(), p.clone()));
                }
                E::Not(x) => go(x, a, b),
                E::Rel(x, _, y) | E::And(x, y) | E::Or(x, y) => {
                    go(x, a, b);
                    go(y, a, b)
                }
                E::In(x, l) => {
                    go(x, a, b);
                    l.iter().for_each(|y| go(y, a, b))
                }
            }
        }
        let (mut a, mut b) = Default::default();
        match &self.signals[s].src {
            Src::Plain(e) => go(e, &mut a, &mut b),
            Src::Cases(c) => c.iter().for_each(|(x, y)| {
                go(x, &mut a, &mut b);
                go(y, &mut a, &mut b)
            }),
        }
        (a, b)
    }
}

/// ports of the units of the generated architectures
pub fn ports(hw: &str) -> Vec<(&'static str, Vec<String>, Vec<String>)> {
    const INC: [&str; 40] = [
        "inc0", "inc1", "inc2", "inc3", "inc4", "inc5", "inc6", "inc7", "inc8", "inc9", "inc10",
        "inc11", "inc12", "inc13", "inc14", "inc15", "inc16", "inc17", "inc18", "inc19", "inc20",
        "inc21", "inc22", "inc23", "inc24", "inc25", "inc26", "inc27", "inc28", "inc29", "inc30",
        "inc31", "inc32", "inc33", "inc34", "inc35", "inc36", "inc37", "inc38", "inc39",
    ];
    let v = |s: &str| s.split_whitespace().map(String::from).collect::<Vec<_>>();
    let mut o = vec![("src", vec![], v("p q r s x y z u v"))];
    if hw == "hw_many" {
        o.extend(INC.iter().map(|&n| (n, v("a"), v("e"))));
    } else if hw != "hw_src" {
        o.extend([
            ("inc", v("a"), v("e")),
            ("mix", v("a c"), v("e f")),
            ("acc", v("add"), v("sum")),
            ("tie", vec![], v("k")),
        ]);
    }
    if hw == "hw_all" {
        let i = (0..8)
            .map(|i| format!("b{i}"))
            .chain((0..24).map(|i| format!("y{i}")))
            .chain((0..8).map(|i| format!("w{i}")))
            .collect();
        o.push(("snk", i, vec![]));
    }
    o
}

/// What the units see from outside in a cycle.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Env {
    pub b: [bool; 4],
    pub x: [u8; 3],
    pub u: [u64; 2],
}

/// The state of an interpreted machine.
pub struct Machine<'a> {
    pub h: &'a Hcl,
    hw: String,
    /// for every (unit, input port): the signal driving it
    drive: BTreeMap<(String, String), usize>,
    pub regs: Vec<Vec<V>>,
    total: u64,
    pub vals: Vec<Option<V>>,
    acc_done: bool,
    pub runs: u64,
    env: Env,
}

impl<'a> Machine<'a> {
    pub fn new(h: &'a Hcl, hw: &str) -> Machine<'a> {
        let mut drive = BTreeMap::new();
        for (i, s) in h.signals.iter().enumerate() {
            for d in &s.units {
                assert!(
                    drive.insert(d.clone(), i).is_none(),
                    "two sources for {d:?}"
                );
            }
        }
        Machine {
            h,
            hw: hw.into(),
            drive,
            regs: h
                .stages
                .iter()
                .map(|s| s.fields.iter().map(|f| f.2).collect())
                .collect(),
            total: 0,
            vals: vec![None; h.signals.len()],
            acc_done: false,
            runs: 0,
            env: Env::default(),
        }
    }
    fn input(&mut self, u: &str, p: &str) -> V {
        let s = self.drive[&(u.to_string(), p.to_string())];
        self.sig(s)
    }
    fn num(&mut self, u: &str, p: &str) -> u64 {
        match self.input(u, p) {
            V::N(n) => n,
            V::B(_) => panic!("{u}.{p}"),
        }
    }
    fn flag(&mut self, u: &str, p: &str) -> bool {
        self.input(u, p) == V::B(true)
    }
    fn out(&mut self, u: &str, p: &str) -> V {
        let e = self.env;
        match (u, p) {
            ("src", "p") => V::B(e.b[0]),
            ("src", "q") => V::B(e.b[1]),
            ("src", "r") => V::B(e.b[2]),
            ("src", "s") => V::B(e.b[3]),
            ("src", "x") => V::N(e.x[0] as u64),
            ("src", "y") => V::N(e.x[1] as u64),
            ("src", "z") => V::N(e.x[2] as u64),
            ("src", "u") => V::N(e.u[0]),
            ("src", "v") => V::N(e.u[1]),
            (n, "e") if n.starts_with("inc") => V::N(self.num(n, "a").wrapping_add(1)),
            ("mix", "e") => V::N(self.num("mix", "a") ^ self.flag("mix", "c") as u64),
            ("mix", "f") => V::B(!self.flag("mix", "c")),
            ("tie", "k") => V::N(0x2a),
            ("acc", "sum") => {
                if !self.acc_done {
                    let a = self.num("acc", "add");
                    self.total = self.total.wrapping_add(a);
                    self.acc_done = true;
                }
                V::N(self.total)
            }
            _ => panic!("{u}.{p}"),
        }
    }
    fn eval(&mut self, e: &E) -> V {
        let b = |v: V| match v {
            V::B(b) => b,
            V::N(_) => panic!("number used as a condition"),
        };
        match e {
            E::Lit(v) => *v,
            E::Sig(i) => self.sig(*i),
            E::Reg(s, f) => self.regs[*s][*f],
            E::Out(u, p) => self.out(u, p),
            E::Not(x) => V::B(!b(self.eval(x))),
            E::Rel(x, eq, y) => {
                let (x, y) = (self.eval(x), self.eval(y));
                V::B((x == y) == *eq)
            }
            E::In(x, l) => {
                let x = self.eval(x);
                let mut r = false;
                for y in l {
                    r |= self.eval(y) == x;
                }
                V::B(r)
            }
            E::And(x, y) => {
                let (x, y) = (b(self.eval(x)), b(self.eval(y)));
                V::B(x && y)
            }
            E::Or(x, y) => {
                let (x, y) = (b(self.eval(x)), b(self.eval(y)));
                V::B(x || y)
            }
        }
    }
    fn sig(&mut self, i: usize) -> V {
        if let Some(v) = self.vals[i] {
            return v;
        }
        let h = self.h;
        let v = match &h.signals[i].src {
            Src::Plain(e) => self.eval(e),
            Src::Cases(c) => {
                let mut r = None;
                for (c, v) in c {
                    let t = match self.eval(c) {
                        V::B(b) => b,
                        V::N(n) => n != 0,
                    };
                    if t {
                        r = Some(self.eval(v));
                        break;
                    }
                }
                r.unwrap_or_else(|| panic!("no case of {} holds", h.signals[i].name))
            }
        };
        self.vals[i] = Some(v);
        v
    }
    /// Evaluate all signals of a cycle. Returns what the sink received.
    pub fn propagate(&mut self, env: Env) -> Option<(Vec<bool>, Vec<u8>, Vec<u64>)> {
        self.env = env;
        self.vals.iter_mut().for_each(|v| *v = None);
        self.acc_done = false;
        for i in 0..self.h.signals.len() {
            self.sig(i);
        }
        if self.hw != "hw_src" && self.hw != "hw_many" {
            self.out("acc", "sum");
        }
        (self.hw == "hw_all").then(|| {
            self.runs += 1;
            (
                (0..8).map(|i| self.flag("snk", &format!("b{i}"))).collect(),
                (0..24)
                    .map(|i| self.num("snk", &format!("y{i}")) as u8)
                    .collect(),
                (0..8).map(|i| self.num("snk", &format!("w{i}"))).collect(),
            )
        })
    }
    /// controls (stall, bubble) of a stage in this cycle
    pub fn controls(&self, st: usize) -> (bool, bool) {
        let (mut s, mut b) = (false, false);
        for (i, sig) in self.h.signals.iter().enumerate() {
            for (t, f) in &sig.regs {
                if *t == st && *f == STALL {
                    s = self.vals[i] == Some(V::B(true));
                } else if *t == st && *f == BUBBLE {
                    b = self.vals[i] == Some(V::B(true));
                }
            }
        }
        (s, b)
    }
    pub fn reset_values(&self, st: usize) -> Vec<V> {
        self.h.stages[st].fields.iter().map(|f| f.2).collect()
    }
    /// value arriving at every field of a stage; None if nothing drives it
    pub fn arriving(&self, st: usize) -> Vec<Option<V>> {
        let mut o = vec![None; self.h.stages[st].fields.len()];
        for (i, sig) in self.h.signals.iter().enumerate() {
            for (t, f) in &sig.regs {
                if *t == st && *f < o.len() {
                    o[*f] = self.vals[i];
                }
            }
        }
        o
    }
    /// The clock edge. A field nothing drives keeps its reset value. Stages stalled and bubbled at once are
    /// returned and left as they are.
    pub fn tick(&mut self) -> Vec<usize> {
        let mut both = vec![];
        for st in 0..self.regs.len() {
            let (s, b) = self.controls(st);
            if s && b {
                both.push(st);
            } else if b {
                self.regs[st] = self.reset_values(st);
            } else if !s {
                for (f, v) in self.arriving(st).into_iter().enumerate() {
                    self.regs[st][f] = v.unwrap_or(self.h.stages[st].fields[f].2);
                }
            }
        }
        both
    }
}
