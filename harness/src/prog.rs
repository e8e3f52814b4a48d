//! Byte-level programs: instructions, labels, memory images.
use crate::refisa::*;
use serde_json::{json, Value};

pub const RAX: u8 = 0;
pub const RCX: u8 = 1;
pub const RDX: u8 = 2;
pub const RBX: u8 = 3;
pub const RSP: u8 = 4;
pub const RBP: u8 = 5;
pub const REGN: [&str; 15] = [
    "%rax", "%rcx", "%rdx", "%rbx", "%rsp", "%rbp", "%rsi", "%rdi", "%r8", "%r9", "%r10", "%r11",
    "%r12", "%r13", "%r14",
];
pub const CMOVN: [&str; 7] = [
    "rrmovq", "cmovle", "cmovl", "cmove", "cmovne", "cmovge", "cmovg",
];
pub const JN: [&str; 7] = ["jmp", "jle", "jl", "je", "jne", "jge", "jg"];
pub const OPN: [&str; 4] = ["addq", "subq", "andq", "xorq"];

/// Jump targets and address constants: absolute, or a label of the snippet.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Abs(u64),
    L(u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum I {
    Halt,
    Nop,
    Cmov(u8, u8, u8),
    Ir(T, u8),
    /// store ra -> d(rb)
    St(u8, u64, u8),
    /// load d(rb) -> ra
    Ld(u64, u8, u8),
    Op(u8, u8, u8),
    Iop(u8, u64, u8),
    J(u8, T),
    Call(T),
    Ret,
    Push(u8),
    Pop(u8),
    /// a label definition
    Lab(u16),
    Raw(Vec<u8>),
}

pub fn ir(v: u64, r: u8) -> I {
    I::Ir(T::Abs(v), r)
}

impl I {
    pub fn len(&self) -> u64 {
        use I::*;
        match self {
            Halt | Nop | Ret => 1,
            Cmov(..) | Op(..) | Push(_) | Pop(_) => 2,
            J(..) | Call(_) => 9,
            Ir(..) | St(..) | Ld(..) | Iop(..) => 10,
            Lab(_) => 0,
            Raw(b) => b.len() as u64,
        }
    }
    pub fn text(&self) -> String {
        use I::*;
        let r = |x: &u8| {
            if *x < 15 {
                REGN[*x as usize].to_string()
            } else {
                format!("%?{x}")
            }
        };
        let t = |x: &T| match x {
            T::Abs(a) => format!("{a:#x}"),
            T::L(l) => format!("L{l}"),
        };
        match self {
            Halt => "halt".into(),
            Nop => "nop".into(),
            Ret => "ret".into(),
            Cmov(c, a, b) => format!(
                "{} {}, {}",
                CMOVN.get(*c as usize).unwrap_or(&"cmov?"),
                r(a),
                r(b)
            ),
            Ir(v, b) => format!(
                "irmovq {}{}, {}",
                if matches!(v, T::Abs(_)) { "$" } else { "" },
                t(v),
                r(b)
            ),
            St(a, d, b) => format!("rmmovq {}, {:#x}({})", r(a), d, r(b)),
            Ld(d, b, a) => format!("mrmovq {:#x}({}), {}", d, r(b), r(a)),
            Op(f, a, b) => format!(
                "{} {}, {}",
                OPN.get(*f as usize).unwrap_or(&"op?"),
                r(a),
                r(b)
            ),
            Iop(f, v, b) => format!(
                "i{} ${:#x}, {}",
                OPN.get(*f as usize).unwrap_or(&"op?"),
                v,
                r(b)
            ),
            J(c, d) => format!("{} {}", JN.get(*c as usize).unwrap_or(&"j?"), t(d)),
            Call(d) => format!("call {}", t(d)),
            Push(a) => format!("pushq {}", r(a)),
            Pop(a) => format!("popq {}", r(a)),
            Lab(l) => format!("L{l}:"),
            Raw(b) => format!(".bytes {}", crate::common::hex(b)),
        }
    }
}

pub fn texts(p: &[I]) -> Vec<String> {
    p.iter().map(|i| i.text()).collect()
}

/// Encode at `base`; labels are snippet-local.
pub fn encode(p: &[I], base: u64) -> Vec<u8> {
    let mut labs = [u64::MAX; 64];
    let mut a = base;
    for i in p {
        if let I::Lab(l) = i {
            labs[*l as usize] = a;
        }
        a += i.len();
    }
    let t = |x: &T| match x {
        T::Abs(a) => *a,
        T::L(l) => {
            assert!(labs[*l as usize] != u64::MAX, "undefined label {l}");
            labs[*l as usize]
        }
    };
    let mut o: Vec<u8> = Vec::with_capacity((a - base) as usize);
    for i in p {
        use I::*;
        match i {
            Halt => o.push(0),
            Nop => o.push(0x10),
            Ret => o.push(0x90),
            Cmov(c, a, b) => o.extend([0x20 | c, a << 4 | b]),
            Ir(v, b) => {
                o.extend([0x30, 0xf0 | b]);
                o.extend(t(v).to_le_bytes());
            }
            St(a, d, b) => {
                o.extend([0x40, a << 4 | b]);
                o.extend(d.to_le_bytes());
            }
            Ld(d, b, a) => {
                o.extend([0x50, a << 4 | b]);
                o.extend(d.to_le_bytes());
            }
            Op(f, a, b) => o.extend([0x60 | f, a << 4 | b]),
            Iop(f, v, b) => {
                o.extend([0xc0 | f, 0xf0 | b]);
                o.extend(v.to_le_bytes());
            }
            J(c, d) => {
                o.push(0x70 | c);
                o.extend(t(d).to_le_bytes());
            }
            Call(d) => {
                o.push(0x80);
                o.extend(t(d).to_le_bytes());
            }
            Push(a) => o.extend([0xa0, a << 4 | 15]),
            Pop(a) => o.extend([0xb0, a << 4 | 15]),
            Lab(_) => {}
            Raw(b) => o.extend(b),
        }
    }
    o
}

/// A memory image given by segments over zero.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Image {
    pub segs: Vec<(u64, Vec<u8>)>,
}

impl Image {
    pub fn new(p: &[I]) -> Self {
        Image {
            segs: vec![(0, encode(p, 0))],
        }
    }
    pub fn with(mut self, at: u64, b: Vec<u8>) -> Self {
        self.segs.push((at, b));
        self
    }
    pub fn with_prog(self, at: u64, p: &[I]) -> Self {
        let b = encode(p, at);
        self.with(at, b)
    }
    pub fn load(&self) -> Mem {
        let mut m = [0u8; MEM];
        self.load_into(&mut m);
        m
    }
    pub fn load_into(&self, m: &mut Mem) {
        for (a, b) in &self.segs {
            m[*a as usize..*a as usize + b.len()].copy_from_slice(b);
        }
    }
    pub fn json(&self) -> Value {
        json!(self
            .segs
            .iter()
            .map(|(a, b)| json!({"addr": format!("{a:#x}"), "bytes": crate::common::hex(b)}))
            .collect::<Vec<_>>())
    }
    pub fn from_json(v: &Value) -> Self {
        let mut i = Image::default();
        for s in v.as_array().unwrap() {
            let a = u64::from_str_radix(&s["addr"].as_str().unwrap()[2..], 16).unwrap();
            i.segs
                .push((a, crate::common::unhex(s["bytes"].as_str().unwrap())));
        }
        i
    }
}
