//! Reference model of the Y86-64 instruction set (CS:APP3e chapter 4, plus the iopq extension).
//! Deliberately plain: one instruction per call of `step`.

pub const MEM: usize = 1 << 16;
pub type Mem = [u8; MEM];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Cc {
    pub sf: bool,
    pub of: bool,
    pub zf: bool,
}

impl Cc {
    pub fn cond(self, f: u8) -> bool {
        match f {
            0 => true,
            1 => self.zf || (self.sf != self.of),
            2 => self.sf != self.of,
            3 => self.zf,
            4 => !self.zf,
            5 => self.sf == self.of,
            6 => self.sf == self.of && !self.zf,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Stat {
    Aok,
    Hlt,
    Adr,
    Ins,
}

/// Is the encoding one the assembler can emit?
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Canonical,
    /// defined instruction code, but a function code or register specifier no assembler emits
    Odd,
    Undefined,
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub icode: u8,
    pub ifun: u8,
    pub ra: u8,
    pub rb: u8,
    pub valc: u64,
    pub len: u64,
    pub enc: Enc,
}

pub fn ilen(icode: u8) -> u64 {
    match icode {
        0 | 1 | 9 => 1,
        2 | 6 | 0xa | 0xb => 2,
        7 | 8 => 9,
        3 | 4 | 5 | 0xc => 10,
        _ => 1,
    }
}

pub fn rd8(m: &Mem, a: u64) -> u64 {
    u64::from_le_bytes(m[a as usize..a as usize + 8].try_into().unwrap())
}

/// None: some byte of the instruction is outside memory.
pub fn decode(m: &Mem, pc: u64) -> Option<Dec> {
    if pc >= MEM as u64 {
        return None;
    }
    let b0 = m[pc as usize];
    let (icode, ifun) = (b0 >> 4, b0 & 15);
    let len = ilen(icode);
    if pc + len > MEM as u64 {
        return None;
    }
    let p = pc as usize;
    let (mut ra, mut rb, mut valc) = (15, 15, 0);
    match icode {
        2 | 6 | 0xa | 0xb => {
            ra = m[p + 1] >> 4;
            rb = m[p + 1] & 15;
        }
        3 | 4 | 5 | 0xc => {
            ra = m[p + 1] >> 4;
            rb = m[p + 1] & 15;
            valc = rd8(m, pc + 2);
        }
        7 | 8 => valc = rd8(m, pc + 1),
        _ => {}
    }
    let funmax = match icode {
        2 | 7 => 6,
        6 | 0xc => 3,
        _ => 0,
    };
    let regs_ok = match icode {
        2 | 4 | 5 | 6 => ra != 15 && rb != 15,
        3 | 0xc => ra == 15 && rb != 15,
        0xa | 0xb => ra != 15 && rb == 15,
        _ => true,
    };
    let enc = if icode > 0xc {
        Enc::Undefined
    } else if ifun <= funmax && regs_ok {
        Enc::Canonical
    } else {
        Enc::Odd
    };
    Some(Dec {
        icode,
        ifun,
        ra,
        rb,
        valc,
        len,
        enc,
    })
}

/// What one step did.
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub pc: u64,
    pub stat: Stat,
    pub dec: Option<Dec>,
    /// address of an 8-byte store and the bytes it replaced
    pub store: Option<(u64, u64)>,
    /// registers read as sources by the instruction
    pub srcs: [u8; 2],
    /// register loaded from memory
    pub dst_m: u8,
    pub dst_e: u8,
    pub taken: bool,
}

#[derive(Clone)]
pub struct Machine {
    pub regs: [u64; 16],
    pub cc: Cc,
    pub pc: u64,
    pub n: u64,
    pub stat: Stat,
    /// is the iopq extension implemented
    pub iopq: bool,
}

impl Default for Machine {
    fn default() -> Self {
        Machine {
            regs: [0; 16],
            cc: Cc::default(),
            pc: 0,
            n: 0,
            stat: Stat::Aok,
            iopq: true,
        }
    }
}

fn in_mem(a: u64) -> bool {
    a <= MEM as u64 - 8
}

impl Machine {
    pub fn no_iopq() -> Self {
        Machine {
            iopq: false,
            ..Default::default()
        }
    }

    pub fn step(&mut self, m: &mut Mem) -> Step {
        assert!(self.stat == Stat::Aok);
        let pc = self.pc;
        let mut s = Step {
            pc,
            stat: Stat::Aok,
            dec: None,
            store: None,
            srcs: [15, 15],
            dst_m: 15,
            dst_e: 15,
            taken: false,
        };
        self.n += 1;
        let stop = |me: &mut Self, mut s: Step, st: Stat| {
            me.stat = st;
            s.stat = st;
            s
        };
        let Some(d) = decode(m, pc) else {
            return stop(self, s, Stat::Adr);
        };
        s.dec = Some(d);
        if d.enc == Enc::Undefined || (d.icode == 0xc && !self.iopq) {
            return stop(self, s, Stat::Ins);
        }
        let (ra, rb) = (d.ra as usize, d.rb as usize);
        let next = pc + d.len;
        const SP: usize = 4;
        match d.icode {
            0 => return stop(self, s, Stat::Hlt),
            1 => self.pc = next,
            2 => {
                s.srcs[0] = d.ra;
                s.taken = self.cc.cond(d.ifun);
                if s.taken {
                    self.regs[rb] = self.regs[ra];
                    s.dst_e = d.rb;
                }
                self.pc = next;
            }
            3 => {
                self.regs[rb] = d.valc;
                s.dst_e = d.rb;
                self.pc = next;
            }
            4 => {
                s.srcs = [d.ra, d.rb];
                let a = self.regs[rb].wrapping_add(d.valc);
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                s.store = Some((a, rd8(m, a)));
                m[a as usize..a as usize + 8].copy_from_slice(&self.regs[ra].to_le_bytes());
                self.pc = next;
            }
            5 => {
                s.srcs = [15, d.rb];
                s.dst_m = d.ra;
                let a = self.regs[rb].wrapping_add(d.valc);
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                self.regs[ra] = rd8(m, a);
                self.pc = next;
            }
            6 | 0xc => {
                let a = if d.icode == 6 { self.regs[ra] } else { d.valc };
                let b = self.regs[rb];
                s.srcs = if d.icode == 6 {
                    [d.ra, d.rb]
                } else {
                    [15, d.rb]
                };
                s.dst_e = d.rb;
                let (e, of) = match d.ifun {
                    0 => (
                        b.wrapping_add(a),
                        (b as i64).checked_add(a as i64).is_none(),
                    ),
                    1 => (
                        b.wrapping_sub(a),
                        (b as i64).checked_sub(a as i64).is_none(),
                    ),
                    2 => (b & a, false),
                    3 => (b ^ a, false),
                    _ => return stop(self, s, Stat::Ins),
                };
                self.cc = Cc {
                    sf: (e as i64) < 0,
                    of,
                    zf: e == 0,
                };
                self.regs[rb] = e;
                self.pc = next;
            }
            7 => {
                s.taken = self.cc.cond(d.ifun);
                self.pc = if s.taken { d.valc } else { next };
            }
            8 => {
                s.srcs = [15, 4];
                s.dst_e = 4;
                let a = self.regs[SP].wrapping_sub(8);
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                s.store = Some((a, rd8(m, a)));
                m[a as usize..a as usize + 8].copy_from_slice(&next.to_le_bytes());
                self.regs[SP] = a;
                self.pc = d.valc;
            }
            9 => {
                s.srcs = [4, 4];
                s.dst_e = 4;
                let a = self.regs[SP];
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                self.pc = rd8(m, a);
                self.regs[SP] = a + 8;
            }
            0xa => {
                s.srcs = [d.ra, 4];
                s.dst_e = 4;
                let a = self.regs[SP].wrapping_sub(8);
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                s.store = Some((a, rd8(m, a)));
                let v = self.regs[ra];
                m[a as usize..a as usize + 8].copy_from_slice(&v.to_le_bytes());
                self.regs[SP] = a;
                self.pc = next;
            }
            0xb => {
                s.srcs = [4, 4];
                s.dst_e = 4;
                s.dst_m = d.ra;
                let a = self.regs[SP];
                if !in_mem(a) {
                    return stop(self, s, Stat::Adr);
                }
                let v = rd8(m, a);
                self.regs[SP] = a + 8;
                self.regs[ra] = v;
                self.pc = next;
            }
            _ => unreachable!(),
        }
        s
    }

    /// Run until stopped or `max` instructions; true if stopped.
    pub fn run(&mut self, m: &mut Mem, max: u64) -> bool {
        while self.stat == Stat::Aok {
            if self.n >= max {
                return false;
            }
            self.step(m);
        }
        true
    }
}
