//! Enumerated families of program snippets.
use crate::prog::*;

/// A finite family: `n` members, member i is produced by `get`.
pub struct Fam {
    pub name: &'static str,
    pub n: usize,
    pub get: Box<dyn Fn(usize) -> Option<Vec<I>> + Sync + Send>,
}

pub fn fam(
    name: &'static str,
    n: usize,
    get: impl Fn(usize) -> Option<Vec<I>> + Sync + Send + 'static,
) -> Fam {
    Fam {
        name,
        n,
        get: Box::new(get),
    }
}

/// Mixed radix digits of an index.
pub struct Dig(pub usize);
impl Dig {
    pub fn d(&mut self, base: usize) -> usize {
        let r = self.0 % base;
        self.0 /= base;
        r
    }
}

pub const MIN: u64 = 1 << 63;
pub const MAX: u64 = MIN - 1;

pub fn vals_small() -> Vec<u64> {
    vec![0, 1, u64::MAX, MIN, MAX, 0x100]
}
pub fn vals_big(mined: &[u64]) -> Vec<u64> {
    let mut v = vec![
        0,
        1,
        2,
        3,
        7,
        8,
        0x10,
        0x7f,
        0x80,
        0xff,
        0x100,
        0x7fff,
        0x8000,
        0xffff,
        0x10000,
        0x7fff_ffff,
        0x8000_0000,
        0xffff_ffff,
        0x1_0000_0000,
        MAX,
        MIN,
        MIN + 1,
        MAX - 1,
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 7,
        u64::MAX - 8,
        0x5555_5555_5555_5555,
        0xaaaa_aaaa_aaaa_aaaa,
        0x0123_4567_89ab_cdef,
        0xfedc_ba98_7654_3210,
    ];
    for i in 0..64 {
        v.push(1 << i);
    }
    for &m in mined {
        v.push(m);
        v.push(m.wrapping_add(1));
        v.push(m.wrapping_neg());
    }
    v.sort();
    v.dedup();
    v
}

/// The six reachable condition-code states: (b, a, op) computing b op a.
pub const CCS: [(u64, u64, u8); 6] = [
    (2, 1, 1),     // ---
    (1, 2, 1),     // s--
    (1, 1, 1),     // --z
    (MIN, 1, 1),   // -o-
    (MAX, 1, 0),   // so-
    (MIN, MIN, 0), // -oz
];

pub fn set_cc(i: usize, t1: u8, t2: u8) -> Vec<I> {
    let (b, a, op) = CCS[i];
    vec![ir(b, t1), ir(a, t2), I::Op(op, t2, t1)]
}

/// Two registers different from the given ones.
pub fn spare(used: &[u8]) -> [u8; 2] {
    let mut o = [15, 15];
    let mut k = 0;
    for r in [14u8, 13, 12, 11, 10, 9] {
        if !used.contains(&r) && k < 2 {
            o[k] = r;
            k += 1;
        }
    }
    o
}

/// Every state of the condition codes, one instruction that keeps them, then an operation on boundary
/// values: the conditions afterwards depend on the last operation only.
pub fn cc_pairs() -> Fam {
    use I::*;
    let vs = vals_small();
    let ns = vs.len();
    let mids: Vec<Vec<I>> = vec![
        vec![],
        vec![Nop],
        vec![Cmov(0, 6, 7)],
        vec![Cmov(3, 6, 7)],
        vec![ir(0, 7)],
        vec![St(6, 0x100, 3)],
        vec![Ld(0x100, 3, 7)],
        vec![Push(6), Pop(7)],
        vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)],
        vec![J(4, T::L(0)), Nop, Lab(0)],
        vec![Op(1, 3, 3)],
    ];
    let nm = mids.len();
    fam(
        "state of the condition codes x instruction x operation x small values, every condition after",
        6 * nm * 5 * ns * ns * 2,
        move |i| {
            let mut d = Dig(i);
            let (jumps, va, vb, op) = (d.d(2), d.d(ns), d.d(ns), d.d(5) as u8);
            let (m, c) = (d.d(nm), d.d(6));
            if op == 4 && va + vb > 0 {
                return None;
            }
            let mut p = vec![
                ir(0, 11),
                ir(1, 12),
                ir(0, 3),
                ir(0x77, 6),
                ir(0x400, RSP),
                ir(vs[va], 0),
                ir(vs[vb], 1),
            ];
            p.extend(set_cc(c, 8, 9));
            p.extend(mids[m].clone());
            if op < 4 {
                p.push(Op(op, 0, 1));
            }
            if jumps == 1 {
                for k in 1..7u8 {
                    p.extend([
                        ir(k as u64, 10),
                        J(k, T::L(10 + k as u16)),
                        ir(0, 10),
                        Lab(10 + k as u16),
                        Cmov(0, 10, if k < 6 { 8 + k } else { 2 }),
                    ]);
                }
            } else {
                for k in 1..7u8 {
                    let r = [5, 7, 8, 9, 10, 13][k as usize - 1];
                    p.extend([Cmov(0, 11, r), Cmov(k, 12, r)]);
                }
            }
            Some(p)
        },
    )
}

/// Every instruction form with every register operand and boundary values.
pub fn single(mined: &[u64], iopq: bool) -> Vec<Fam> {
    let vs = vals_small();
    let vb = vals_big(mined);
    let (ns, nb) = (vs.len(), vb.len());
    let mut f = vec![cc_pairs()];
    {
        let vs = vs.clone();
        f.push(fam(
            "opq: op x rA x rB x small values",
            4 * 225 * ns * ns,
            move |i| {
                let mut d = Dig(i);
                let (va, vv) = (vs[d.d(ns)], vs[d.d(ns)]);
                let (a, b, op) = (d.d(15) as u8, d.d(15) as u8, d.d(4) as u8);
                if a == b && va != vv {
                    return None;
                }
                Some(vec![ir(vv, b), ir(va, a), I::Op(op, a, b)])
            },
        ));
    }
    {
        let vb = vb.clone();
        f.push(fam("opq: op x all value pairs", 4 * nb * nb, move |i| {
            let mut d = Dig(i);
            let (va, vv, op) = (vb[d.d(nb)], vb[d.d(nb)], d.d(4) as u8);
            Some(vec![ir(va, RDX), ir(vv, RBX), I::Op(op, RDX, RBX)])
        }));
    }
    f.push(fam("cmov: cond x cc x rA x rB", 7 * 6 * 225, move |i| {
        let mut d = Dig(i);
        let (a, b, cc, c) = (d.d(15) as u8, d.d(15) as u8, d.d(6), d.d(7) as u8);
        let mut p = set_cc(cc, 3, 6);
        p.extend([
            ir(0x1111, b),
            ir(0x2222_3333_4444_5555, a),
            I::Cmov(c, a, b),
        ]);
        Some(p)
    }));
    f.push(fam("jump: cond x cc x direction", 7 * 6 * 3, move |i| {
        let mut d = Dig(i);
        let (dir, cc, c) = (d.d(3), d.d(6), d.d(7) as u8);
        let mut p = set_cc(cc, 3, 6);
        p.extend([ir(1, 1), ir(2, 2)]);
        match dir {
            0 => p.extend([I::J(c, T::L(0)), ir(3, 1), I::Lab(0), ir(4, 2)]),
            1 => p.extend([
                I::J(0, T::L(1)),
                I::Lab(0),
                ir(5, 5),
                I::J(0, T::L(2)),
                I::Lab(1),
                I::J(c, T::L(0)),
                ir(6, 6),
                I::Lab(2),
            ]),
            _ => p.extend([I::J(c, T::L(0)), I::Lab(0), ir(4, 2)]),
        }
        Some(p)
    }));
    {
        let vb = vb.clone();
        f.push(fam("irmovq: rB x all values", 15 * nb, move |i| {
            let mut d = Dig(i);
            let (v, r) = (vb[d.d(nb)], d.d(15) as u8);
            Some(vec![ir(v, r)])
        }));
    }
    if iopq {
        {
            let vs = vs.clone();
            f.push(fam(
                "iopq: op x rB x small values",
                4 * 15 * ns * ns,
                move |i| {
                    let mut d = Dig(i);
                    let (va, vv, b, op) = (vs[d.d(ns)], vs[d.d(ns)], d.d(15) as u8, d.d(4) as u8);
                    Some(vec![ir(vv, b), I::Iop(op, va, b)])
                },
            ));
        }
        let vb = vb.clone();
        f.push(fam("iopq: op x all value pairs", 4 * nb * nb, move |i| {
            let mut d = Dig(i);
            let (va, vv, op) = (vb[d.d(nb)], vb[d.d(nb)], d.d(4) as u8);
            Some(vec![ir(vv, RBX), I::Iop(op, va, RBX)])
        }));
    }
    // addresses: (base, displacement) pairs whose wrapped sum is a scratch address
    let mut ad: Vec<(u64, u64)> = vec![];
    for ea in [0x10u64, 0x100, 0x101, 0x10f, 0xff8] {
        for base in [
            0u64,
            ea,
            8,
            0xffff,
            u64::MAX,
            MIN,
            MAX,
            ea.wrapping_sub(8),
            0x1_0000_0000,
        ] {
            ad.push((base, ea.wrapping_sub(base)));
        }
    }
    let na = ad.len();
    {
        let ad = ad.clone();
        f.push(fam(
            "rmmovq/mrmovq: rA x rB x (base, displacement)",
            2 * 225 * na,
            move |i| {
                let mut d = Dig(i);
                let ((base, dis), a, b, ld) = (ad[d.d(na)], d.d(15) as u8, d.d(15) as u8, d.d(2));
                let mut p = vec![ir(0x8877_6655_4433_2211, a), ir(base, b)];
                p.push(if ld == 1 {
                    I::Ld(dis, b, a)
                } else {
                    I::St(a, dis, b)
                });
                Some(p)
            },
        ));
    }
    {
        let vb = vb.clone();
        f.push(fam(
            "store, overlapping load: values x offsets",
            nb * 15 * 2,
            move |i| {
                let mut d = Dig(i);
                let (off, k, v) = (d.d(15) as u64, d.d(2) as u64, vb[d.d(nb)]);
                Some(vec![
                    ir(v, 2),
                    ir(0x200, 3),
                    I::St(2, 8 * k, 3),
                    I::Ld((8 * k + off).wrapping_sub(7), 3, 6),
                    I::Ld(8 * k, 3, 7),
                ])
            },
        ));
    }
    {
        let vb: Vec<u64> = vb
            .iter()
            .copied()
            .filter(|&a| (0x10..0xff0).contains(&a))
            .collect();
        let nb = vb.len();
        f.push(fam("store and load at mined addresses", nb * 3, move |i| {
            let mut d = Dig(i);
            let (a, k) = (vb[d.d(nb)], d.d(3));
            Some(match k {
                0 => vec![
                    ir(0xdead_beef_0bad_cafe, 7),
                    ir(0, 3),
                    I::St(7, a, 3),
                    I::Ld(a, 3, 6),
                ],
                1 => vec![
                    ir(0xdead_beef_0bad_cafe, 7),
                    ir(a, 3),
                    I::St(7, 0, 3),
                    I::Ld(0, 3, 6),
                ],
                _ => vec![ir(0x1234, 7), ir(a + 8, RSP), I::Push(7), I::Pop(6)],
            })
        }));
    }
    f.push(fam(
        "pushq/popq: register x rsp x alignment",
        15 * 6 * 4,
        move |i| {
            let mut d = Dig(i);
            let (r, sp, k) = (
                d.d(15) as u8,
                [0x18u64, 0x200, 0x201, 0x7f9, 0xff8, 0x1000][d.d(6)],
                d.d(4),
            );
            let mut p = vec![ir(0x5a5a_0000_ffff_1234, r), ir(sp, RSP)];
            match k {
                0 => p.push(I::Push(r)),
                1 => p.push(I::Pop(r)),
                2 => p.extend([I::Push(r), I::Pop(r)]),
                _ => p.extend([I::Push(RSP), I::Pop(r), I::Push(r), I::Pop(RSP)]),
            }
            Some(p)
        },
    ));
    f.push(fam("call/ret shapes x rsp", 6 * 6, move |i| {
        let mut d = Dig(i);
        let (sp, k) = (
            [0x18u64, 0x200, 0x201, 0x7f9, 0xff8, 0x1000][d.d(6)],
            d.d(6),
        );
        let mut p = vec![ir(sp, RSP), ir(1, 1)];
        use I::*;
        match k {
            0 => p.extend([
                Call(T::L(0)),
                ir(2, 2),
                J(0, T::L(1)),
                Lab(0),
                ir(3, 3),
                Ret,
                Lab(1),
            ]),
            1 => p.extend([
                J(0, T::L(1)),
                Lab(0),
                ir(3, 3),
                Ret,
                Lab(1),
                Call(T::L(0)),
                ir(2, 2),
            ]),
            2 => p.extend([Call(T::L(0)), Lab(0), Pop(6)]),
            3 => p.extend([Ir(T::L(0), 6), Push(6), Ret, ir(9, 9), Lab(0), ir(5, 5)]),
            4 => p.extend([
                Call(T::L(0)),
                ir(2, 2),
                J(0, T::L(2)),
                Lab(0),
                Push(1),
                Call(T::L(1)),
                Pop(7),
                Ret,
                Lab(1),
                ir(4, 8),
                Ret,
                Lab(2),
            ]),
            _ => p.extend([
                Call(T::L(0)),
                J(0, T::L(1)),
                Lab(0),
                Pop(6),
                Push(6),
                Ret,
                Lab(1),
            ]),
        }
        Some(p)
    }));
    f
}

/// Loops and recursions of parametric length.
pub fn loops(max: usize) -> Vec<Fam> {
    use I::*;
    vec![
        fam("counting loop: iterations", max, |n| {
            Some(vec![
                ir(n as u64 + 1, 1),
                ir(u64::MAX, 2),
                ir(0, 3),
                Lab(0),
                Op(0, 1, 3),
                Op(0, 2, 1),
                J(4, T::L(0)),
                ir(7, 7),
            ])
        }),
        fam("recursion: depth", max.min(60), |n| {
            Some(vec![
                ir(0xff0, RSP),
                ir(n as u64, 1),
                ir(1, 2),
                ir(0, 3),
                Call(T::L(0)),
                J(0, T::L(9)),
                Lab(0),
                Op(2, 1, 1),
                J(3, T::L(1)),
                Op(1, 2, 1),
                Push(1),
                Call(T::L(0)),
                Pop(6),
                Op(0, 6, 3),
                Lab(1),
                Ret,
                Lab(9),
            ])
        }),
        fam("copy loop: words", max.min(60), |n| {
            Some(vec![
                ir(0x100, 1),
                ir(0x500, 2),
                ir(n as u64 + 1, 6),
                ir(8, 8),
                ir(1, 9),
                Lab(0),
                Ld(0, 1, 10),
                St(10, 0, 2),
                Op(0, 8, 1),
                Op(0, 8, 2),
                Op(1, 9, 6),
                J(6, T::L(0)),
            ])
        }),
    ]
}

/// All sequences of length `len` over a general alphabet covering every instruction class.
pub fn general(len: usize, regs: [u8; 3]) -> Fam {
    let [a, b, c] = regs;
    use I::*;
    let mut al: Vec<Vec<I>> = vec![
        vec![ir(0x48, a)],
        vec![Cmov(0, a, b)],
        vec![Op(0, a, b)],
        vec![Op(1, b, a)],
        vec![Op(3, c, a)],
        vec![Op(2, a, c)],
        vec![Cmov(3, a, c)],
        vec![Cmov(2, b, a)],
        vec![Ld(0, b, a)],
        vec![St(a, 8, c)],
        vec![Push(a)],
        vec![Pop(b)],
        vec![Push(RSP)],
        vec![Pop(RSP)],
    ];
    // jump over the next element, call the next element (return address left on the stack)
    let nb = al.len();
    al.push(vec![J(4, T::L(0))]);
    al.push(vec![J(1, T::L(0))]);
    al.push(vec![Call(T::L(0))]);
    al.push(vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)]);
    let n = al.len();
    fam(
        "all sequences over the general alphabet",
        n.pow(len as u32),
        move |i| {
            let mut d = Dig(i);
            let mut p = vec![ir(0x100, a), ir(0x40, b), ir(0x40, c), ir(0x800, RSP)];
            let mut lab = 0u16;
            let mut pend: Option<u16> = None;
            for _ in 0..len {
                let e = d.d(n);
                let base = lab;
                for x in &al[e] {
                    p.push(match x {
                        J(c, T::L(k)) => J(*c, T::L(base + k)),
                        Call(T::L(k)) => Call(T::L(base + k)),
                        Lab(k) => Lab(base + k),
                        o => o.clone(),
                    });
                }
                if e < nb || e == n - 1 {
                    if e == n - 1 {
                        lab += 2;
                    }
                    if let Some(l) = pend.take() {
                        p.push(Lab(l));
                    }
                } else if e >= nb {
                    if let Some(l) = pend.take() {
                        p.push(Lab(l));
                    }
                    pend = Some(base);
                    lab += 1;
                }
            }
            if let Some(l) = pend {
                p.push(Lab(l));
            }
            Some(p)
        },
    )
}
