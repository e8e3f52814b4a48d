//! Many snippets in one memory image: the simulators are expensive to create, so bodies are chained.
//! Code lives at CODE.. , data and stack below it, so that no snippet modifies code.
use crate::prog::*;
use crate::refisa::*;

pub const CODE: u64 = 0x1000;
pub const LIMIT: u64 = 0xff00;

thread_local! {
    static BASE: Box<Mem> = {
        let mut m = Box::new([0u8; MEM]);
        let j = encode(&[I::J(0, T::Abs(CODE))], 0);
        m[..j.len()].copy_from_slice(&j);
        let mut a = 0x10u64;
        while a < CODE {
            m[a as usize..a as usize + 8].copy_from_slice(&scratch(a).to_le_bytes());
            a += 8;
        }
        m
    };
}

/// Initial contents of the scratch words: small aligned addresses inside the scratch area.
pub fn scratch(a: u64) -> u64 {
    0x40 + ((a * 7 + 8) & 0x3f8)
}

pub fn base_mem() -> Mem {
    BASE.with(|b| **b)
}

pub struct Batch {
    pub img: Box<Mem>,
    rm: Box<Mem>,
    mach: Machine,
    pos: u64,
    pub snips: Vec<(u64, Vec<I>)>,
    pub accept_faults: bool,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Add {
    Ok,
    /// leaves the domain (faults, halts, touches code, runs away)
    Rejected,
    Full,
}

impl Default for Batch {
    fn default() -> Self {
        Self::new()
    }
}

impl Batch {
    pub fn new() -> Self {
        let img = Box::new(base_mem());
        let rm = img.clone();
        let mut mach = Machine::no_iopq();
        mach.pc = CODE;
        mach.n = 1;
        Batch {
            img,
            rm,
            mach,
            pos: CODE,
            snips: vec![],
            accept_faults: false,
        }
    }

    /// instructions executed so far by the reference
    pub fn steps(&self) -> u64 {
        self.mach.n
    }

    pub fn try_add(&mut self, s: &[I]) -> Add {
        let bytes = encode(s, self.pos);
        let end = self.pos + bytes.len() as u64;
        if end >= LIMIT {
            return Add::Full;
        }
        let p = self.pos as usize;
        self.img[p..p + bytes.len()].copy_from_slice(&bytes);
        self.rm[p..p + bytes.len()].copy_from_slice(&bytes);
        let mut m = self.mach.clone();
        let mut undo: Vec<(u64, u64)> = vec![];
        let n0 = m.n;
        let mut ok = true;
        while m.pc != end {
            // stay inside the snippet
            if m.pc < self.pos || m.pc > end || m.n - n0 > 400 {
                ok = false;
                break;
            }
            let e = m.step(&mut self.rm);
            if let Some((a, old)) = e.store {
                undo.push((a, old));
                if a < 0x10 || a + 8 > CODE {
                    ok = false;
                    break;
                }
            }
            if e.stat != Stat::Aok || e.dec.is_some_and(|d| d.enc != Enc::Canonical) {
                ok = false;
                break;
            }
        }
        if ok {
            self.mach = m;
            self.snips.push((self.pos, s.to_vec()));
            self.pos = end;
            Add::Ok
        } else {
            for (a, old) in undo.into_iter().rev() {
                self.rm[a as usize..a as usize + 8].copy_from_slice(&old.to_le_bytes());
            }
            self.img[p..p + bytes.len()].fill(0);
            self.rm[p..p + bytes.len()].fill(0);
            Add::Rejected
        }
    }
}

/// A snippet alone in the same surroundings, followed by halt (zero).
pub fn alone(s: &[I]) -> Mem {
    let mut m = base_mem();
    let b = encode(s, CODE);
    m[CODE as usize..CODE as usize + b.len()].copy_from_slice(&b);
    m
}
