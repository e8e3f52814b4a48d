//! Program families for the pipeline properties: data hazards (C05), control hazards (C06).
use crate::fam::*;
use crate::prog::*;

/// Registers reserved for capturing the condition codes at the end of a snippet.
const Z: u8 = 11;
const ONE: u8 = 12;

/// Copy the condition codes into registers: r13 = (sf != of), r14 = zf.
pub fn capture() -> Vec<I> {
    vec![
        I::Cmov(0, Z, 13),
        I::Cmov(2, ONE, 13),
        I::Cmov(0, Z, 14),
        I::Cmov(3, ONE, 14),
    ]
}

/// Splice alphabet elements into one program: labels are renumbered; an element that jumps to the
/// label 0 without defining it jumps over the following element.
pub fn splice(parts: &[&[I]], out: &mut Vec<I>) {
    use I::*;
    let mut lab = 0u16;
    let mut pend: Option<u16> = None;
    for part in parts {
        let base = lab;
        let mut max = 0;
        let mut defs0 = false;
        let mut uses0 = false;
        for x in part.iter() {
            let y = match x {
                J(c, T::L(k)) => {
                    uses0 |= *k == 0;
                    max = max.max(k + 1);
                    J(*c, T::L(base + k))
                }
                Call(T::L(k)) => {
                    uses0 |= *k == 0;
                    max = max.max(k + 1);
                    Call(T::L(base + k))
                }
                Ir(T::L(k), r) => {
                    uses0 |= *k == 0;
                    max = max.max(k + 1);
                    Ir(T::L(base + k), *r)
                }
                Lab(k) => {
                    defs0 |= *k == 0;
                    max = max.max(k + 1);
                    Lab(base + k)
                }
                o => o.clone(),
            };
            out.push(y);
        }
        lab += max;
        if let Some(l) = pend.take() {
            out.push(Lab(l));
        }
        if uses0 && !defs0 {
            pend = Some(base);
        }
    }
    if let Some(l) = pend {
        out.push(Lab(l));
    }
}

/// Hazard alphabet over registers a, b, c and %rsp.
pub fn alphabet([a, b, c]: [u8; 3]) -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![ir(0x48, a)],
        vec![ir(0x60, b)],
        vec![Cmov(0, a, b)],
        vec![Cmov(0, b, a)],
        vec![Op(0, a, b)],
        vec![Op(1, b, a)],
        vec![Op(3, a, a)],
        vec![Op(2, b, c)],
        vec![Cmov(3, a, b)],
        vec![Cmov(4, b, c)],
        vec![Cmov(5, c, a)],
        vec![Ld(0, a, b)],
        vec![Ld(8, b, a)],
        vec![Ld(0, a, a)],
        vec![St(a, 0, b)],
        vec![St(b, 8, a)],
        vec![St(c, 0, RSP)],
        vec![Ld(0, RSP, c)],
        vec![Push(a)],
        vec![Pop(a)],
        vec![Pop(b)],
        vec![Push(RSP)],
        vec![Pop(RSP)],
        vec![Nop],
        vec![Cmov(0, RSP, a)],
        vec![Cmov(0, a, RSP)],
        vec![Ld(0, b, RSP)],
        vec![Call(T::L(0)), Lab(0)],
        vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)],
        vec![J(4, T::L(0))],
        vec![J(3, T::L(0))],
    ]
}

/// The members of `alphabet` that carry data (used for the longest sequences in the quick tier).
pub fn alphabet_small(r: [u8; 3]) -> Vec<Vec<I>> {
    let a = alphabet(r);
    [2usize, 4, 5, 8, 11, 12, 14, 18, 20, 22, 24, 26, 23, 28, 29]
        .iter()
        .map(|&i| a[i].clone())
        .collect()
}

pub fn sequences(name: &'static str, al: Vec<Vec<I>>, regs: [u8; 3], len: usize) -> Fam {
    let n = al.len();
    fam(name, n.pow(len as u32), move |i| {
        let mut d = Dig(i);
        let [a, b, c] = regs;
        let mut p = vec![
            ir(0, Z),
            ir(1, ONE),
            ir(0x40, c),
            ir(0x80, b),
            ir(0x100, a),
            ir(0x800, RSP),
        ];
        let parts: Vec<&[I]> = (0..len).map(|_| &al[d.d(n)][..]).collect();
        splice(&parts, &mut p);
        p.extend(capture());
        Some(p)
    })
}

/// Instructions that write register r (x, y: other registers, holding valid addresses).
pub fn producers(r: u8, x: u8) -> Vec<Vec<I>> {
    use I::*;
    let mut v = vec![
        vec![ir(0x90, r)],
        vec![Cmov(0, x, r)],
        vec![Op(0, x, r)],
        vec![Op(3, x, r)],
        vec![Cmov(3, x, r)],
        vec![Cmov(4, x, r)],
        vec![Ld(8, x, r)],
        vec![Ld(0, r, r)],
        vec![Pop(r)],
    ];
    if r == RSP {
        v.push(vec![Push(x)]);
        v.push(vec![Pop(x)]);
        v.push(vec![Push(RSP)]);
        v.push(vec![Call(T::L(0)), Lab(0)]);
        v.push(vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)]);
        v.push(vec![Call(T::L(0)), Lab(0), Nop]);
    }
    v
}
/// Instructions that read register r.
pub fn consumers(r: u8, x: u8, y: u8) -> Vec<Vec<I>> {
    use I::*;
    let mut v = vec![
        vec![Cmov(0, r, x)],
        vec![Op(0, r, x)],
        vec![Op(1, x, r)],
        vec![Op(2, r, r)],
        vec![St(r, 0, x)],
        vec![St(x, 0, r)],
        vec![St(r, 0, r)],
        vec![Ld(0, r, y)],
        vec![Ld(0, r, r)],
        vec![Cmov(4, r, x)],
        vec![Cmov(3, r, x)],
        vec![Push(r)],
    ];
    if r == RSP {
        v.push(vec![Push(x)]);
        v.push(vec![Pop(x)]);
        v.push(vec![Call(T::L(0)), Lab(0)]);
        v.push(vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)]);
    }
    v
}

/// One producer at distance 0..=4 before a consumer, every register.
pub fn single_producer() -> Vec<Fam> {
    let mut out = vec![];
    for r in 0..15u8 {
        let o: Vec<u8> = [RAX, RBX, 6, 9, 10]
            .into_iter()
            .filter(|&q| q != r && q != RSP)
            .collect();
        let (x, y) = (o[0], o[1]);
        let (ps, cs) = (producers(r, x), consumers(r, x, y));
        let (np, nc) = (ps.len(), cs.len());
        out.push(fam(
            "producer x distance x consumer",
            np * nc * 5 * 2,
            move |i| {
                let mut d = Dig(i);
                let (p, c, dist, cc) = (d.d(np), d.d(nc), d.d(5), d.d(2));
                let mut q = vec![
                    ir(0, Z),
                    ir(1, ONE),
                    ir(0x40, x),
                    ir(0x80, y),
                    ir(0x100, RSP),
                    ir(0x100, r),
                    I::Op(if cc == 0 { 2 } else { 3 }, y, y),
                ];
                let nops = vec![I::Nop; dist];
                splice(&[&ps[p], &nops, &cs[c]], &mut q);
                q.extend(capture());
                Some(q)
            },
        ));
    }
    out
}

/// Two producers of the same register before a consumer: the more recent one wins.
pub fn double_producer(regs: &[u8]) -> Vec<Fam> {
    let mut out = vec![];
    for &r in regs {
        let o: Vec<u8> = [RAX, RBX, 6, 9, 10]
            .into_iter()
            .filter(|&q| q != r && q != RSP)
            .collect();
        let (x, y) = (o[0], o[1]);
        let (ps, cs) = (producers(r, x), consumers(r, x, y));
        let (np, nc) = (ps.len(), cs.len());
        out.push(fam(
            "producer x gap x producer x gap x consumer",
            np * np * nc * 9,
            move |i| {
                let mut d = Dig(i);
                let (p, p2, c, g1, g2) = (d.d(np), d.d(np), d.d(nc), d.d(3), d.d(3));
                let mut q = vec![
                    ir(0, Z),
                    ir(1, ONE),
                    ir(0x40, x),
                    ir(0x80, y),
                    ir(0x100, RSP),
                    ir(0x100, r),
                    I::Op(2, y, y),
                ];
                splice(
                    &[
                        &ps[p],
                        &vec![I::Nop; g1],
                        &ps[p2],
                        &vec![I::Nop; g2],
                        &cs[c],
                    ],
                    &mut q,
                );
                q.extend(capture());
                Some(q)
            },
        ));
    }
    out
}

/// Instructions that must never take effect when they are fetched on a wrong path.
pub fn junk() -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![Halt],
        vec![Raw(vec![0xf0])],
        vec![Raw(vec![0xd3])],
        vec![Iop(0, 5, 1)],
        vec![St(1, 0, 2)],
        vec![Push(1)],
        vec![Call(T::Abs(0x1234))],
        vec![Ret],
        vec![Op(0, 1, 2)],
        vec![Op(3, 1, 1)],
        vec![ir(0xbad, 1)],
        vec![J(0, T::Abs(0x10))],
        vec![J(4, T::Abs(0x20))],
        vec![J(3, T::Abs(u64::MAX))],
        vec![Pop(RSP)],
        vec![Ld(u64::MAX, 2, 1)],
        vec![St(1, 0xfffc, 2)],
        vec![Ld(0, 2, RSP)],
        vec![Cmov(0, 1, 2)],
        vec![Nop],
        vec![Raw(vec![0x70, 0xff, 0xff])],
    ]
}

fn pre() -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![],
        vec![Nop],
        vec![Nop, Nop, Nop],
        vec![Ld(0, 2, 1)],
        vec![Ld(0, 2, 1), Cmov(0, 1, 6)],
        vec![St(2, 8, 2)],
        vec![Push(2)],
        vec![Pop(1)],
    ]
}
fn post() -> Vec<Vec<I>> {
    use I::*;
    vec![
        vec![Cmov(0, 1, 7)],
        vec![Op(0, 2, 1)],
        vec![Ld(0, 2, 1), Op(0, 1, 7)],
        vec![St(1, 0, 2), Ld(0, 2, 7)],
        vec![Push(1), Pop(7)],
        vec![Call(T::L(0)), J(0, T::L(1)), Lab(0), Ret, Lab(1)],
        vec![J(3, T::L(0)), ir(0x77, 7), Lab(0)],
        vec![J(4, T::L(0)), ir(0x77, 7), Lab(0)],
        vec![Cmov(3, 1, 7), Cmov(4, 2, 1)],
    ]
}

fn head() -> Vec<I> {
    vec![
        ir(0, Z),
        ir(1, ONE),
        ir(0x48, 1),
        ir(0x80, 2),
        ir(0x800, RSP),
        ir(0x99, 7),
        ir(0x98, 6),
    ]
}

/// Mispredicted and correctly predicted branches: the target block holds junk when it is not to be executed.
pub fn branches(full: bool) -> Vec<Fam> {
    use I::*;
    let mut out = vec![];
    let (js, pr, po) = (junk(), pre(), post());
    let (nj, npr, npo) = (js.len(), pr.len(), po.len());
    let j3 = if full { nj } else { 1 };
    out.push(fam(
        "not-taken branch: cond x cc x junk pairs at the target x before x after",
        6 * 6 * nj * nj * j3 * npr * npo,
        {
            let (js, pr, po) = (js.clone(), pr.clone(), po.clone());
            move |i| {
                let mut d = Dig(i);
                let (k1, k2, k3) = (d.d(nj), d.d(nj), d.d(j3));
                let (p, q, cc, c) = (d.d(npr), d.d(npo), d.d(6), d.d(6) as u8 + 1);
                // quick tier: rotate the surroundings over the junk pairs instead of the full product
                if !full && ((k1 + k2 * 3) % npr != p || (k1 * 5 + k2) % npo != q) {
                    return None;
                }
                let ccv = {
                    let (b, a, op) = CCS[cc];
                    cc_of(b, a, op)
                };
                if ccv.cond(c) {
                    return None;
                }
                let mut s = head();
                s.extend(set_cc(cc, 8, 9));
                s.extend(pr[p].clone());
                s.push(J(c, T::L(50)));
                splice(&[&po[q]], &mut s);
                s.extend(capture());
                s.push(J(0, T::L(51)));
                s.push(Lab(50));
                s.extend(js[k1].clone());
                s.extend(js[k2].clone());
                if full {
                    s.extend(js[k3].clone());
                }
                s.extend([Nop, Nop, Nop, Halt, Lab(51)]);
                Some(s)
            }
        },
    ));
    out.push(fam(
        "branch right after the instruction that sets the codes: cond x cc x junk x after",
        7 * 6 * nj * npo * 3,
        {
            let (js, po) = (js.clone(), po.clone());
            move |i| {
                let mut d = Dig(i);
                let (k1, q, cc, c, gap) = (d.d(nj), d.d(npo), d.d(6), d.d(7) as u8, d.d(3));
                let ccv = {
                    let (b, a, op) = CCS[cc];
                    cc_of(b, a, op)
                };
                let mut s = head();
                // codes opposite first, so that a stale value is visible
                s.extend(set_cc(5 - cc, 8, 9));
                s.extend(set_cc(cc, 8, 9));
                s.extend(vec![Nop; gap]);
                s.push(J(c, T::L(50)));
                if ccv.cond(c) {
                    s.extend(js[k1].clone());
                    s.extend([Nop, Nop, Halt, Lab(50)]);
                    splice(&[&po[q]], &mut s);
                    s.extend(capture());
                } else {
                    splice(&[&po[q]], &mut s);
                    s.extend(capture());
                    s.push(J(0, T::L(51)));
                    s.push(Lab(50));
                    s.extend(js[k1].clone());
                    s.extend([Nop, Nop, Halt, Lab(51)]);
                }
                Some(s)
            }
        },
    ));
    let bad: Vec<u64> = vec![
        0x10000,
        0xffff,
        0xfffe,
        0xfff8,
        0xfff7,
        0xfff6,
        0x10001,
        1 << 31,
        1 << 32,
        MAX,
        MIN,
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 7,
        u64::MAX - 8,
        u64::MAX - 9,
        u64::MAX - 10,
        0,
    ];
    let nb = bad.len();
    out.push(fam(
        "not-taken branch to an address outside memory",
        6 * 6 * nb * npr * npo,
        {
            let (pr, po) = (pr.clone(), po.clone());
            move |i| {
                let mut d = Dig(i);
                let (b, p, q, cc, c) = (bad[d.d(nb)], d.d(npr), d.d(npo), d.d(6), d.d(6) as u8 + 1);
                let ccv = {
                    let (b, a, op) = CCS[cc];
                    cc_of(b, a, op)
                };
                if ccv.cond(c) {
                    return None;
                }
                let mut s = head();
                s.extend(set_cc(cc, 8, 9));
                s.extend(pr[p].clone());
                s.push(J(c, T::Abs(b)));
                splice(&[&po[q]], &mut s);
                s.extend(capture());
                Some(s)
            }
        },
    ));
    // chains of branches: every element taken or not taken
    out.push(fam(
        "chains of four branches over different blocks",
        12usize.pow(4),
        move |i| {
            let mut d = Dig(i);
            let mut s = head();
            s.extend(set_cc(2, 8, 9));
            let mut l = 0;
            let mut tail = vec![];
            for _ in 0..4 {
                let e = d.d(12);
                match e {
                    0 => s.extend([J(3, T::L(l)), ir(1, 7), Lab(l)]),
                    1 => s.extend([J(4, T::L(l)), Op(0, 2, 7), Lab(l)]),
                    2 => s.extend([J(3, T::L(l)), Lab(l)]),
                    3 => s.extend([J(4, T::L(l)), Lab(l)]),
                    4 => s.push(Op(1, 1, 2)),
                    5 => s.push(Op(3, 1, 1)),
                    6 => s.push(Ld(0, 2, 1)),
                    7 => s.extend([Call(T::L(l)), Lab(l)]),
                    8 => {
                        s.push(Call(T::L(l)));
                        tail.extend([Lab(l), Op(0, 2, 1), Ret]);
                    }
                    9 => {
                        s.push(Call(T::L(l)));
                        tail.extend([
                            Lab(l),
                            J(4, T::L(l + 1)),
                            Ret,
                            Lab(l + 1),
                            Cmov(0, 2, 7),
                            Ret,
                        ]);
                    }
                    10 => {
                        s.push(J(4, T::L(l)));
                        tail.extend([Lab(l), Ret, Ret]);
                        // only legal when not taken
                    }
                    _ => {
                        s.push(J(2, T::L(l)));
                        tail.extend([Lab(l), Pop(RSP), Halt]);
                    }
                }
                l += 2;
            }
            s.extend(capture());
            s.push(J(0, T::L(60)));
            s.extend(tail);
            s.push(Lab(60));
            Some(s)
        },
    ));
    out
}

pub fn cc_of(b: u64, a: u64, op: u8) -> crate::refisa::Cc {
    let (r, of) = match op {
        0 => (
            b.wrapping_add(a),
            (b as i64).checked_add(a as i64).is_none(),
        ),
        1 => (
            b.wrapping_sub(a),
            (b as i64).checked_sub(a as i64).is_none(),
        ),
        2 => (b & a, false),
        _ => (b ^ a, false),
    };
    crate::refisa::Cc {
        sf: (r as i64) < 0,
        of,
        zf: r == 0,
    }
}

/// Returns: what precedes the ret, what lies behind it, what follows at the return address.
pub fn returns(full: bool) -> Vec<Fam> {
    use I::*;
    let mut out = vec![];
    let (js, po) = (junk(), post());
    let before: Vec<Vec<I>> = vec![
        vec![],
        vec![Nop],
        vec![Nop, Nop],
        vec![Push(1), Pop(6)],
        vec![Pop(6), Push(6)],
        vec![Cmov(0, RSP, 6), Cmov(0, 6, RSP)],
        vec![ir(0, 8), Op(0, 8, RSP)],
        vec![St(RSP, 0x100, 2), Ld(0x100, 2, RSP)],
        vec![St(RSP, 0x100, 2), Nop, Ld(0x100, 2, RSP), Nop],
        vec![Push(RSP), Pop(RSP)],
        vec![Ld(0, RSP, 6), St(6, 0, RSP)],
        vec![Op(1, 8, 9)],
        vec![Op(3, 8, 8), J(4, T::Abs(0x30))],
        vec![Op(3, 8, 8), J(3, T::L(40)), Halt, Lab(40)],
        vec![Ld(0, 2, 7)],
        vec![Call(T::L(40)), J(0, T::L(41)), Lab(40), Ret, Lab(41)],
    ];
    let (nj, nb, npo) = (js.len(), before.len(), po.len());
    out.push(fam(
        "call f; f: before ret junk junk; after",
        nj * nj * nb * npo,
        move |i| {
            let mut d = Dig(i);
            let (k1, k2, b, q) = (d.d(nj), d.d(nj), d.d(nb), d.d(npo));
            if !full && (k1 + 2 * k2) % npo != q {
                return None;
            }
            let mut s = head();
            s.extend(set_cc(0, 8, 9));
            s.push(Call(T::L(50)));
            splice(&[&po[q]], &mut s);
            s.extend(capture());
            s.extend([J(0, T::L(51)), Lab(50)]);
            s.extend(before[b].clone());
            s.push(Ret);
            s.extend(js[k1].clone());
            s.extend(js[k2].clone());
            s.extend([Nop, Nop, Halt, Lab(51)]);
            Some(s)
        },
    ));
    out.push(ret_consumer());
    out
}

/// `ret` as the consumer of %rsp and of the stored return address, for every producer of either.
pub fn ret_consumer() -> Fam {
    use I::*;
    // rsp before, producer that makes it 0x200 (rax = 0x200, rcx = 8, rbx = 0, [0x100] = 0x200)
    let prods: Vec<(u64, Vec<I>)> = vec![
        (0x300, vec![ir(0x200, RSP)]),
        (0x300, vec![Cmov(0, RAX, RSP)]),
        (0x300, vec![Cmov(3, RAX, RSP)]),
        (0x200, vec![Cmov(4, RBX, RSP)]),
        (0x1f8, vec![Op(0, RCX, RSP)]),
        (0x208, vec![Op(1, RCX, RSP)]),
        (0x300, vec![Op(2, RBX, RSP), Op(0, RAX, RSP)]),
        (0x300, vec![Ld(0x100, RBX, RSP)]),
        (0x100, vec![Ld(0, RSP, RSP)]),
        (0x100, vec![Pop(RSP)]),
        (0x1f8, vec![Pop(9)]),
        (0x208, vec![Push(10)]),
        (0x300, vec![Ld(0x100, RBX, 9), Cmov(0, 9, RSP)]),
        (0x300, vec![Ld(0x100, RBX, RSP), Cmov(0, RSP, 9)]),
        (0x208, vec![Push(RBX), Pop(9), Push(10)]),
        (0x200, vec![Call(T::L(3)), Lab(3), Pop(9)]),
    ];
    // when the return address is stored
    let stores: Vec<Vec<I>> = vec![
        vec![St(10, 0, RAX), Nop, Nop, Nop],
        vec![St(10, 0, RAX)],
        vec![St(RBX, 0, RAX), St(10, 0, RAX)],
    ];
    let fills: Vec<Vec<I>> = vec![
        vec![],
        vec![Nop],
        vec![Nop, Nop],
        vec![Nop, Nop, Nop],
        vec![Ld(0x100, RBX, 9)],
        vec![Ld(0x100, RBX, 9), Op(0, 9, 8)],
        vec![Op(3, 8, 8)],
        vec![J(4, T::L(4)), Lab(4)],
        vec![J(3, T::L(4)), Ret, Lab(4)],
        vec![St(RSP, 0x40, RBX)],
        vec![Op(3, 8, 8), J(4, T::Abs(0x10))],
    ];
    let after: Vec<Vec<I>> = vec![
        vec![Cmov(0, RSP, 6)],
        vec![Push(RSP), Pop(6)],
        vec![Ld(0, RSP, 6), Op(0, 6, 7)],
        vec![Call(T::L(5)), J(0, T::L(6)), Lab(5), Ret, Lab(6)],
        vec![Pop(RSP), Cmov(0, RSP, 6)],
    ];
    let (np, ns, nf, na) = (prods.len(), stores.len(), fills.len(), after.len());
    fam(
        "ret: producer of the stack pointer x store of the return address x gap x after",
        np * ns * nf * na * 3,
        move |i| {
            let mut d = Dig(i);
            let (j, a, f, st, p) = (d.d(3), d.d(na), d.d(nf), d.d(ns), d.d(np));
            let mut q = vec![
                ir(0, Z),
                ir(1, ONE),
                ir(0x200, RAX),
                ir(0, RBX),
                ir(8, RCX),
                ir(0x40, 8),
                ir(0x77, 7),
                Ir(T::L(0), 10),
                St(RAX, 0x100, RBX),
                ir(prods[p].0, RSP),
                Op(3, 9, 9),
            ];
            q.extend(stores[st].clone());
            q.extend(prods[p].1.clone());
            q.extend(fills[f].clone());
            q.push(Ret);
            q.extend([
                vec![Halt],
                vec![St(RAX, 0x40, RBX), Push(7), Op(0, 7, 7)],
                vec![Ld(0x100, RBX, RSP), Ret, Ret],
            ][j].clone());
            q.push(Lab(0));
            q.extend(after[a].clone());
            q.extend(capture());
            Some(q)
        },
    )
}
