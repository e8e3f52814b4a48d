//! Reference assembler: a hand-written parser and two-pass layout for the assembly language, independent of the
//! grammar under test.
use crate::prog::{CMOVN, REGN};
use crate::refisa::{Mem, MEM};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    /// None: out of range
    Num(Option<u64>),
    Lab(String),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    /// opcode bytes, optional 8-byte constant
    Inst(Vec<u8>, Option<Val>),
    Data(usize, Val),
    Pos(Option<u64>),
    Align(Option<u64>),
}

#[derive(Debug, Clone, Default)]
pub struct Line {
    pub label: Option<String>,
    pub item: Option<Item>,
    pub text: String,
}

/// Outcome of parsing one line.
pub enum PLine {
    Ok(Line),
    Bad,
    /// the language leaves it open (a mnemonic glued to its operand)
    Free,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn run(&self, f: impl Fn(u8) -> bool) -> &'a [u8] {
        let mut j = self.i;
        while j < self.b.len() && f(self.b[j]) {
            j += 1;
        }
        &self.b[self.i..j]
    }
    fn ident(&mut self) -> Option<String> {
        if !(self.peek().is_ascii_alphabetic() || self.peek() == b'_') {
            return None;
        }
        let r = self.run(|c| c.is_ascii_alphanumeric() || c == b'_');
        self.i += r.len();
        Some(String::from_utf8(r.to_vec()).unwrap())
    }
    fn num(&mut self) -> Option<Option<u64>> {
        let neg = self.eat(b'-').is_some();
        let hex = self.b[self.i..].starts_with(b"0x")
            && self
                .b
                .get(self.i + 2)
                .is_some_and(|c| c.is_ascii_hexdigit());
        if hex {
            self.i += 2;
            let r = self.run(|c| c.is_ascii_hexdigit());
            self.i += r.len();
            let mut v: u128 = 0;
            for &c in r {
                v = (v << 4) | (c as char).to_digit(16).unwrap() as u128;
                if v >> 64 != 0 {
                    return Some(None);
                }
            }
            let v = v as u64;
            Some(Some(if neg { v.wrapping_neg() } else { v }))
        } else {
            let r = self.run(|c| c.is_ascii_digit());
            if r.is_empty() {
                return None;
            }
            self.i += r.len();
            let mut v: i128 = 0;
            for &c in r {
                v = v * 10 + (c - b'0') as i128;
                if v > 1 << 80 {
                    return Some(None);
                }
            }
            if neg {
                v = -v;
            }
            Some(i64::try_from(v).ok().map(|x| x as u64))
        }
    }
    fn reg(&mut self) -> Option<u8> {
        self.eat(b'%')?;
        let r = self.run(|c| c.is_ascii_alphanumeric());
        let t = format!("%{}", String::from_utf8(r.to_vec()).unwrap());
        let k = REGN.iter().position(|n| *n == t)?;
        self.i += r.len();
        Some(k as u8)
    }
    fn comma(&mut self) -> Option<()> {
        self.ws();
        self.eat(b',')?;
        self.ws();
        Some(())
    }
    fn addr(&mut self) -> Option<(Val, u8)> {
        let d = if self.peek() == b'(' {
            Some(0)
        } else {
            self.num()?
        };
        self.eat(b'(')?;
        let r = self.reg()?;
        self.eat(b')')?;
        Some((Val::Num(d), r))
    }
    fn imm(&mut self) -> Option<Val> {
        if self.eat(b'$').is_some() {
            return Some(Val::Num(self.num()?));
        }
        self.ident().map(Val::Lab)
    }
    fn num_or_label(&mut self) -> Option<Val> {
        match self.ident() {
            Some(l) => Some(Val::Lab(l)),
            None => Some(Val::Num(self.num()?)),
        }
    }
}

pub const OPS: [&str; 4] = ["addq", "subq", "andq", "xorq"];
pub const CC: [&str; 7] = ["mp", "le", "l", "e", "ne", "ge", "g"];

fn mnemonics() -> Vec<String> {
    let mut v: Vec<String> = [
        "halt", "nop", "ret", "irmovq", "rmmovq", "mrmovq", "call", "pushq", "popq", ".pos",
        ".align", ".byte", ".word", ".long", ".quad",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for o in OPS {
        v.push(o.into());
        v.push(format!("i{o}"));
    }
    for c in CC {
        v.push(format!("j{c}"));
    }
    for c in CMOVN {
        v.push(c.into());
    }
    v
}

thread_local! {
    static MN: Vec<String> = mnemonics();
}

fn item(p: &mut P, m: &str) -> Option<Item> {
    Some(match m {
        "halt" => Item::Inst(vec![0x00], None),
        "nop" => Item::Inst(vec![0x10], None),
        "ret" => Item::Inst(vec![0x90], None),
        "irmovq" => {
            p.ws();
            let v = p.imm()?;
            p.comma()?;
            let r = p.reg()?;
            Item::Inst(vec![0x30, 0xf0 | r], Some(v))
        }
        "rmmovq" => {
            p.ws();
            let a = p.reg()?;
            p.comma()?;
            let (v, b) = p.addr()?;
            Item::Inst(vec![0x40, a << 4 | b], Some(v))
        }
        "mrmovq" => {
            p.ws();
            let (v, b) = p.addr()?;
            p.comma()?;
            let a = p.reg()?;
            Item::Inst(vec![0x50, a << 4 | b], Some(v))
        }
        "call" => {
            p.ws();
            Item::Inst(vec![0x80], Some(Val::Lab(p.ident()?)))
        }
        "pushq" | "popq" => {
            p.ws();
            let r = p.reg()?;
            Item::Inst(
                vec![if m == "pushq" { 0xa0 } else { 0xb0 }, r << 4 | 15],
                None,
            )
        }
        ".pos" => {
            p.ws();
            Item::Pos(p.num()?)
        }
        ".align" => {
            p.ws();
            Item::Align(p.num()?)
        }
        ".byte" | ".word" | ".long" | ".quad" => {
            p.ws();
            let n = match m {
                ".byte" => 1,
                ".word" => 2,
                ".long" => 4,
                _ => 8,
            };
            Item::Data(n, p.num_or_label()?)
        }
        _ => {
            if let Some(k) = OPS.iter().position(|o| *o == m) {
                p.ws();
                let a = p.reg()?;
                p.comma()?;
                let b = p.reg()?;
                Item::Inst(vec![0x60 | k as u8, a << 4 | b], None)
            } else if let Some(k) = OPS.iter().position(|o| m.strip_prefix('i') == Some(o)) {
                p.ws();
                let v = p.imm()?;
                p.comma()?;
                let b = p.reg()?;
                Item::Inst(vec![0xc0 | k as u8, 0xf0 | b], Some(v))
            } else if let Some(k) = CMOVN.iter().position(|o| *o == m) {
                p.ws();
                let a = p.reg()?;
                p.comma()?;
                let b = p.reg()?;
                Item::Inst(vec![0x20 | k as u8, a << 4 | b], None)
            } else if let Some(k) = CC.iter().position(|o| m.strip_prefix('j') == Some(o)) {
                p.ws();
                Item::Inst(vec![0x70 | k as u8], Some(Val::Lab(p.ident()?)))
            } else {
                return None;
            }
        }
    })
}

pub fn parse_line(text: &str) -> PLine {
    let mut p = P {
        b: text.as_bytes(),
        i: 0,
    };
    p.ws();
    let mut line = Line {
        text: text.to_string(),
        ..Default::default()
    };
    let save = p.i;
    if let Some(l) = p.ident() {
        if p.eat(b':').is_some() {
            line.label = Some(l);
            p.ws();
        } else {
            p.i = save;
        }
    }
    let c = p.peek();
    if c == b'.' || c.is_ascii_alphabetic() {
        let r = p.run(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.');
        let w = String::from_utf8(r.to_vec()).unwrap();
        let exact = MN.with(|m| m.iter().any(|x| *x == w));
        if !exact {
            let glued = MN.with(|m| {
                m.iter().any(|x| {
                    w.starts_with(x.as_str())
                        && !matches!(
                            x.as_str(),
                            "halt" | "nop" | "ret" | "pushq" | "popq" | "rmmovq"
                        )
                        && !OPS.contains(&x.as_str())
                        && !x.starts_with("cmov")
                        && x != "rrmovq"
                })
            });
            return if glued { PLine::Free } else { PLine::Bad };
        }
        p.i += r.len();
        match item(&mut p, &w) {
            Some(i) => line.item = Some(i),
            None => return PLine::Bad,
        }
    }
    p.ws();
    if p.i < p.b.len() && p.peek() != b'#' {
        return PLine::Bad;
    }
    PLine::Ok(line)
}

/// Split at \n, \r\n and \r.
pub fn lines(src: &str) -> Vec<&str> {
    let b = src.as_bytes();
    let mut o = vec![];
    let mut s = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            o.push(&src[s..i]);
            if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
                i += 1;
            }
            s = i + 1;
        }
        i += 1;
    }
    o.push(&src[s..]);
    o
}

pub struct Obj {
    pub mem: Box<Mem>,
    pub symbols: BTreeMap<String, u64>,
    /// address and length of every line
    pub at: Vec<(Option<u64>, usize)>,
    pub lines: Vec<Line>,
}

pub enum Verdict {
    Ok(Obj),
    Err(String),
    Free,
}

pub fn ilen(i: &Item) -> usize {
    match i {
        Item::Inst(b, c) => b.len() + if c.is_some() { 8 } else { 0 },
        Item::Data(n, _) => *n,
        _ => 0,
    }
}

pub fn assemble(src: &str) -> Verdict {
    let mut ls = vec![];
    let mut free = false;
    for l in lines(src) {
        match parse_line(l) {
            PLine::Ok(l) => ls.push(l),
            PLine::Bad => return Verdict::Err(format!("malformed line `{l}`")),
            PLine::Free => free = true,
        }
    }
    if free {
        return Verdict::Free;
    }
    let mut cur: u128 = 0;
    let mut at = vec![];
    let mut symbols = BTreeMap::new();
    for l in &ls {
        let mut n = 0;
        match &l.item {
            Some(Item::Pos(v)) => match v {
                Some(v) => cur = *v as u128,
                None => return Verdict::Err("literal out of range".into()),
            },
            Some(Item::Align(v)) => match v {
                Some(v) if v.is_power_of_two() => {
                    let v = *v as u128;
                    cur = cur.div_ceil(v) * v;
                    if cur >> 64 != 0 {
                        return Verdict::Free;
                    }
                }
                Some(_) => return Verdict::Err("alignment is not a power of two".into()),
                None => return Verdict::Err("literal out of range".into()),
            },
            Some(i) => {
                n = ilen(i);
                if cur + n as u128 > MEM as u128 {
                    return Verdict::Err("bytes outside memory".into());
                }
                if let Item::Inst(_, Some(Val::Num(None))) | Item::Data(_, Val::Num(None)) = i {
                    return Verdict::Err("literal out of range".into());
                }
            }
            None => {}
        }
        if let Some(x) = &l.label {
            symbols.insert(x.clone(), cur as u64);
        }
        at.push((
            (l.label.is_some() || l.item.is_some()).then_some(cur as u64),
            n,
        ));
        cur += n as u128;
    }
    let mut mem = Box::new([0u8; MEM]);
    for (l, (a, _)) in ls.iter().zip(&at) {
        let val = |v: &Val| match v {
            Val::Num(n) => n.ok_or(()),
            Val::Lab(l) => symbols.get(l).copied().ok_or(()),
        };
        match &l.item {
            Some(Item::Inst(b, c)) => {
                let a = a.unwrap() as usize;
                mem[a..a + b.len()].copy_from_slice(b);
                if let Some(c) = c {
                    let Ok(v) = val(c) else {
                        return Verdict::Err("undefined label".into());
                    };
                    mem[a + b.len()..a + b.len() + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            Some(Item::Data(n, v)) => {
                let a = a.unwrap() as usize;
                let Ok(v) = val(v) else {
                    return Verdict::Err("undefined label".into());
                };
                mem[a..a + n].copy_from_slice(&v.to_le_bytes()[..*n]);
            }
            _ => {}
        }
    }
    Verdict::Ok(Obj {
        mem,
        symbols,
        at,
        lines: ls,
    })
}

impl Obj {
    /// The lines of the .yo listing.
    pub fn listing(&self) -> Vec<String> {
        self.lines
            .iter()
            .zip(&self.at)
            .map(|(l, (a, n))| match a {
                Some(a) => {
                    let h = if *n > 0 {
                        crate::common::hex(&self.mem[*a as usize..*a as usize + n])
                    } else {
                        String::new()
                    };
                    format!("{a:#06x}: {h:<21}| {}", l.text)
                }
                None => format!("{:29}| {}", "", l.text),
            })
            .collect()
    }
}
