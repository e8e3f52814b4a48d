//! C14 - C18: the assembler against the reference assembler.
use crate::common::*;
use crate::fam::Dig;
use crate::prog::*;
use crate::refasm::{self, Verdict};
use serde_json::{json, Value};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use y86_sim::{assemble, AssembleOption};

fn show(s: &str) -> String {
    if s.len() > 300 {
        let mut k = 300;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{:?}...", &s[..k])
    } else {
        format!("{s:?}")
    }
}

#[derive(Clone, Copy)]
pub struct What {
    pub listing: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Res {
    Accepted,
    Refused,
    Free,
}

/// Assemble with the implementation and compare everything with the reference.
pub fn check_src(src: &str, w: What) -> Result<Res, String> {
    let v = refasm::assemble(src);
    let got = guard(|| assemble(src, AssembleOption::default()))
        .map_err(|p| format!("the assembler crashed: {p}"))?;
    match (v, got) {
        (Verdict::Free, _) => Ok(Res::Free),
        (Verdict::Err(_), Err(_)) => Ok(Res::Refused),
        (Verdict::Err(e), Ok(_)) => Err(format!("accepted, but should be refused: {e}")),
        (Verdict::Ok(_), Err(e)) => Err(format!("refused, but is well-formed: {e:#}")),
        (Verdict::Ok(r), Ok(g)) => {
            let m = guard(|| g.obj.init_mem()).map_err(|p| format!("crashed: {p}"))?;
            if m[..] != r.mem[..] {
                let i = (0..m.len()).find(|&i| m[i] != r.mem[i]).unwrap();
                return Err(format!(
                    "byte at {i:#x} is {:#04x}, should be {:#04x}",
                    m[i], r.mem[i]
                ));
            }
            if g.obj.symbols.len() != r.symbols.len() {
                return Err("number of labels differs".into());
            }
            for (l, a) in &r.symbols {
                match g.obj.symbols.get(l) {
                    Some(b) if a == b => {}
                    o => return Err(format!("label {l} is {o:x?}, should be {a:#x}")),
                }
            }
            for (i, (a, _)) in r.at.iter().enumerate() {
                match g.source.get_line(i as i64 + 1) {
                    None => return Err(format!("line {} is missing", i + 1)),
                    Some(l) => {
                        if l.addr != *a {
                            return Err(format!(
                                "line {} stands at {:x?}, should be {:x?}",
                                i + 1,
                                l.addr,
                                a
                            ));
                        }
                    }
                }
            }
            if w.listing {
                let t = guard(|| format!("{g}"))
                    .map_err(|p| format!("printing the listing crashed: {p}"))?;
                compare_listing(&t, &r)?;
            }
            Ok(Res::Accepted)
        }
    }
}

/// Trailing blanks of a listing line and empty trailing lines are not compared.
pub fn compare_listing(t: &str, r: &refasm::Obj) -> Result<(), String> {
    let mut got: Vec<&str> = t.split('\n').collect();
    let want = r.listing();
    if got.last() == Some(&"") {
        got.pop();
    }
    if got.len() < want.len() {
        return Err(format!(
            "the listing has {} lines, the source {}",
            got.len(),
            want.len()
        ));
    }
    for (i, w) in want.iter().enumerate() {
        let g = got[i];
        if g.trim_end() != w.trim_end() || (r.lines[i].text.trim_end() != r.lines[i].text && g != w)
        {
            return Err(format!("listing line {} is {g:?}, should be {w:?}", i + 1));
        }
    }
    for g in &got[want.len()..] {
        if !g.trim_end().trim_end_matches('|').trim().is_empty() {
            return Err(format!("the listing has an additional line {g:?}"));
        }
    }
    Ok(())
}

fn case(src: &str) -> Value {
    json!({"source": src})
}

/// Check all texts of an indexed family.
fn texts_fam<G>(ctx: &Arc<Ctx>, name: &str, n: usize, w: What, gen: G)
where
    G: Fn(usize) -> Option<String> + Sync,
{
    let per = 256;
    ctx.par(n.div_ceil(per), |ch| {
        let mut cnt = std::collections::BTreeMap::new();
        let (mut st, mut tr) = (0u64, 0u64);
        for i in ch * per..((ch + 1) * per).min(n) {
            let Some(s) = gen(i) else { continue };
            if i % 16 == 0 {
                ctx.begin(|| json!({"family": name, "near_index": i, "source": s}));
            }
            match check_src(&s, w) {
                Ok(r) => {
                    *cnt.entry(r).or_insert(0u64) += 1;
                    let k = refasm::lines(&s).len() as u64;
                    st += k + 1;
                    tr += k;
                }
                Err(e) => {
                    ctx.violation(Viol::new(
                        format!("{e} (source {})", show(&s)),
                        format!("asm:{}", show(&s)),
                        case(&s),
                    ));
                    return;
                }
            }
            if i == n / 3 || i == n - 1 {
                ctx.sample(json!({"family": name, "index": i, "source": show(&s)}));
            }
        }
        ctx.end();
        let t: u64 = cnt.values().sum();
        ctx.add(st, tr, t);
        for (k, v) in cnt {
            ctx.outcome(&format!("{name}: {k:?}"), v);
            if k == Res::Free {
                ctx.skipped.fetch_add(v, Relaxed);
            }
        }
    });
}

// -------------------------------------------------------------------------- C14

/// All instruction texts, each with operand choices; `sp` selects a spacing style.
fn spaced(sp: usize, mn: &str, ops: &[String]) -> String {
    let (a, b) = match sp {
        0 => (" ", ", "),
        1 => (" ", ","),
        2 => ("\t", " , "),
        3 => ("   \t ", "\t,\t"),
        4 => (" ", " ,"),
        _ => ("", ","),
    };
    let pre = ["", " ", "\t", "  \t", "", ""][sp];
    let post = ["", " # c", "#x", " \t", "", "\t# halt"][sp];
    if ops.is_empty() {
        return format!("{pre}{mn}{post}");
    }
    format!("{pre}{mn}{a}{}{post}", ops.join(b))
}

pub fn inst_texts(vals: &[String]) -> Vec<(String, Vec<String>)> {
    let r = |k: usize| REGN[k].to_string();
    let mut v: Vec<(String, Vec<String>)> = vec![];
    for m in ["halt", "nop", "ret"] {
        v.push((m.into(), vec![]));
    }
    for a in 0..15 {
        for b in 0..15 {
            for m in CMOVN.iter().chain(refasm::OPS.iter()) {
                v.push((m.to_string(), vec![r(a), r(b)]));
            }
            for d in [
                "",
                "0",
                "8",
                "-8",
                "0x10",
                "-0x10",
                "0xfFfF",
                "9223372036854775807",
                "-9223372036854775808",
            ] {
                v.push(("rmmovq".into(), vec![r(a), format!("{d}({})", r(b))]));
                v.push(("mrmovq".into(), vec![format!("{d}({})", r(b)), r(a)]));
            }
        }
        for m in ["pushq", "popq"] {
            v.push((m.into(), vec![r(a)]));
        }
        for m in ["irmovq", "iaddq", "isubq", "iandq", "ixorq"] {
            for x in vals {
                v.push((m.into(), vec![format!("${x}"), r(a)]));
            }
            for l in LABELS {
                v.push((m.into(), vec![l.to_string(), r(a)]));
            }
        }
    }
    for m in refasm::CC
        .iter()
        .map(|c| format!("j{c}"))
        .chain(["call".to_string()])
    {
        for l in LABELS {
            v.push((m.clone(), vec![l.to_string()]));
        }
    }
    v
}

/// Labels that contain or resemble the words of the language.
pub const LABELS: [&str; 24] = [
    "a",
    "_",
    "L1",
    "andq",
    "iaddq",
    "addq",
    "subq",
    "xorq",
    "le",
    "l",
    "e",
    "ge",
    "mp",
    "rax",
    "halt",
    "x9_",
    "Zz",
    "jmp",
    "cmovle",
    "quad",
    "ne",
    "rrmovq",
    "xandq",
    "longlonglonglonglonglonglonglonglonglonglabel_0123456789",
];

fn lit_small() -> Vec<String> {
    [
        "0",
        "1",
        "-1",
        "255",
        "256",
        "0x1",
        "0xff",
        "-0xff",
        "0x0123456789abcdef",
        "0xFEDCBA9876543210",
        "65536",
        "-9223372036854775808",
        "9223372036854775807",
        "0xffffffffffffffff",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

pub fn c14(ctx: &Arc<Ctx>) {
    let w = What { listing: false };
    let its = inst_texts(&lit_small());
    let n = its.len();
    let defs: String = LABELS
        .iter()
        .enumerate()
        .map(|(i, l)| format!(".pos {}\n{l}:\n", 0x9000 + 0x111 * i))
        .collect();
    inst_files(ctx, &its, &defs, 6);
    ctx.outcome("instruction texts x 6 spacings", n as u64 * 6);
    // every literal that is a 64-bit number x every instruction with a constant x every register
    let lits: Vec<String> = literals(ctx.thorough())
        .into_iter()
        .filter(|x| {
            matches!(refasm::assemble(&format!("irmovq ${x}, %rax\n")), refasm::Verdict::Ok(_))
        })
        .collect();
    let r = |k: usize| REGN[k % 15].to_string();
    let mut ct = vec![];
    for (k, x) in lits.iter().enumerate() {
        for a in 0..15 {
            for m in ["irmovq", "iaddq", "isubq", "iandq", "ixorq"] {
                ct.push((m.to_string(), vec![format!("${x}"), r(a)]));
            }
            let b = r(a * (k % 7 + 1) + k);
            ct.push(("rmmovq".into(), vec![r(a), format!("{x}({b})")]));
            ct.push(("mrmovq".into(), vec![format!("{x}({b})"), r(a)]));
        }
    }
    inst_files(ctx, &ct, &defs, 1);
    ctx.outcome("constants x instructions x registers", ct.len() as u64);
    // every instruction form at every alignment and near the end of memory, with a label on the line
    let forms: Vec<(String, Vec<String>)> = pick_forms(&its);
    let nf = forms.len();
    let ats: Vec<u64> = (0..16u64)
        .chain([0xff, 0x100, 0x7fff, 0x8000])
        .chain((1..=12).map(|k| 0x10000 - k))
        .chain(mined().into_iter().filter(|x| *x < 0x10000))
        .collect();
    texts_fam(ctx, "instruction form x address", nf * ats.len(), w, |i| {
        let (f, a) = (&forms[i % nf], ats[i / nf]);
        Some(
            format!(
                "{} .pos {a}\nhere: {}\nnext: .pos 0x4000\n.quad next\n.quad here\n",
                "",
                spaced(i % 5, &f.0, &f.1)
            ) + &labdefs(&f.1),
        )
    });
    // every form with a label operand x values of the label, also outside the memory
    let lf: Vec<&(String, Vec<String>)> = forms.iter().filter(|f| !labdefs(&f.1).is_empty()).collect();
    let mut vals: Vec<u64> = (0..64).flat_map(|k| [1u64 << k, (1u64 << k) - 1, !(1u64 << k)]).collect();
    vals.extend([0, 0x0123456789abcdef, 0xfedcba9876543210, u64::MAX]);
    vals.extend(mined());
    vals.sort();
    vals.dedup();
    texts_fam(ctx, "label operand x value of the label", lf.len() * vals.len(), w, |i| {
        let (f, v) = (lf[i % lf.len()], vals[i / lf.len()]);
        Some(format!("{}\n", spaced(i % 5, &f.0, &f.1)) + &labdefs(&f.1).replace(".pos 0x8123", &format!(".pos {v:#x}")))
    });
    // all triples of mnemonics in one file
    let one: Vec<&(String, Vec<String>)> = {
        let mut seen = std::collections::BTreeSet::new();
        forms
            .iter()
            .filter(|f| seen.insert(f.0.clone()))
            .collect()
    };
    let no = one.len();
    texts_fam(ctx, "triples of mnemonics", no.pow(3), w, |i| {
        let f = [one[i % no], one[i / no % no], one[i / no / no]];
        let mut s = String::new();
        let mut o = vec![];
        for (k, f) in f.iter().enumerate() {
            s += &format!("t{k}: {}\n", spaced((i / 7 + k) % 5, &f.0, &f.1));
            o.extend(f.1.clone());
        }
        o.sort();
        o.dedup();
        Some(s + ".quad t0\n.quad t1\n.quad t2\n" + &labdefs(&o))
    });
    // all pairs of instruction forms in one file: the second is not disturbed by the first
    texts_fam(ctx, "pairs of instruction forms", nf * nf, w, |i| {
        let (f, g) = (&forms[i % nf], &forms[i / nf]);
        let mut o = f.1.clone();
        o.extend(g.1.clone());
        Some(
            format!(
                "{}\n{}\nend: .quad end\n",
                spaced(0, &f.0, &f.1),
                spaced(i % 5, &g.0, &g.1)
            ) + &labdefs(&o),
        )
    });
}

/// Files of many instructions, in each of `styles` spacing styles; every instruction is followed by a label.
fn inst_files(ctx: &Arc<Ctx>, its: &[(String, Vec<String>)], defs: &str, styles: usize) {
    let w = What { listing: false };
    let n = its.len();
    let per = 200;
    let files = n.div_ceil(per);
    let style = |sp: usize, i: usize| if styles == 1 { i % 6 } else { sp };
    let mk = |sp: usize, lo: usize, hi: usize| {
        let mut s = String::new();
        for i in lo..hi {
            let (m, o) = &its[i];
            let sp = style(sp, i);
            let glue = sp == 5
                && (o.first().is_some_and(|x| {
                    !x.starts_with('%') && !x.starts_with('$') && !x.starts_with('(')
                }));
            s += &spaced(if glue { 1 } else { sp }, m, o);
            s += &format!("\nQ{i}: .byte {}\n", i & 127);
        }
        s + defs
    };
    // find a small reproduction: files that fail are split
    ctx.par(files * styles, |k| {
        let (sp, f) = (k % styles, k / styles);
        let (lo, hi) = (f * per, ((f + 1) * per).min(n));
        let s = mk(sp, lo, hi);
        ctx.begin(|| case(&s));
        if check_src(&s, w).is_err() {
            for i in lo..hi {
                let s1 = mk(sp, i, i + 1);
                if let Err(e) = check_src(&s1, w) {
                    let t = spaced(style(sp, i), &its[i].0, &its[i].1);
                    ctx.violation(Viol::new(format!("`{t}`: {e}"), format!("inst:{t}"), case(&s1)));
                    return;
                }
            }
            let e = check_src(&s, w).err().unwrap();
            ctx.violation(Viol::new(e, format!("file:{k}"), case(&s)));
            return;
        }
        ctx.add(2 * (hi - lo) as u64 + 1, 2 * (hi - lo) as u64, (hi - lo) as u64);
        if k == 7 {
            ctx.sample(json!({"spacing": sp, "instructions": its[lo..lo + 5].iter().map(|x| spaced(sp, &x.0, &x.1)).collect::<Vec<_>>()}));
        }
    });
}

fn labdefs(ops: &[String]) -> String {
    let mut s = String::new();
    for o in ops {
        if o.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
            s += &format!(".pos 0x8123\n{o}:\n");
        }
    }
    s
}

/// One representative per (mnemonic, operand shape).
pub fn pick_forms(its: &[(String, Vec<String>)]) -> Vec<(String, Vec<String>)> {
    let mut seen = std::collections::BTreeSet::new();
    let mut v = vec![];
    for (k, (m, o)) in its.iter().enumerate() {
        let shape: Vec<&str> = o
            .iter()
            .map(|x| {
                if x.starts_with('%') {
                    "r"
                } else if x.starts_with('$') {
                    "i"
                } else if x.starts_with('(') {
                    "a"
                } else if x.ends_with(')') {
                    "d"
                } else {
                    "l"
                }
            })
            .collect();
        let key = format!("{m} {shape:?} {}", (k * 7) % 3);
        if seen.insert(key) {
            v.push((m.clone(), o.clone()));
        }
    }
    v
}

// -------------------------------------------------------------------------- C15

pub fn layout_alphabet() -> Vec<&'static str> {
    vec![
        "A:",
        "B:",
        "A: nop",
        "B: .quad A",
        "irmovq A, %rax",
        "call B",
        "jle A",
        "ret",
        "rrmovq %rax, %rbx",
        ".byte 0x1ff",
        ".word B",
        ".long -2",
        ".quad A",
        ".byte A",
        ".align 8",
        ".align 2",
        ".align 16",
        ".pos 5",
        ".pos 0x21",
        "A: .pos 0x40",
        "B: .align 4",
        "# comment",
        "",
        ".quad 0x1122334455667788",
        "rmmovq %rcx, B",
        "iaddq B, %rdx",
        "mrmovq -8(%rbp), %rsi",
        ".word 0x12345",
        "A: .byte 1",
        ".pos 0",
        ".align 1",
        ".long A",
    ]
}

pub fn c15(ctx: &Arc<Ctx>) {
    layout(ctx, What { listing: false })
}

fn layout(ctx: &Arc<Ctx>, w: What) {
    let al = layout_alphabet();
    let n = al.len();
    for len in 1..=ctx.pick(if w.listing { 3 } else { 4 }, if w.listing { 4 } else { 5 }) {
        texts_fam(
            ctx,
            &format!("all sequences of {len} lines, labels defined at the end or not"),
            n.pow(len as u32) * 2,
            w,
            |i| {
                let mut d = Dig(i);
                let tail = d.d(2);
                let mut s = String::new();
                for _ in 0..len {
                    s += al[d.d(n)];
                    s += "\n";
                }
                // definitions that only apply when missing
                if tail == 1 {
                    for l in ["A", "B"] {
                        if !s.contains(&format!("{l}:")) {
                            s += &format!("{l}: nop\n");
                        }
                    }
                }
                Some(s)
            },
        );
    }
    let small: Vec<&str> = vec![
        "A: nop",
        "B: .quad A",
        "call B",
        ".byte A",
        ".align 8",
        ".align 4",
        ".pos 5",
        "B: .align 4",
        "A:",
        ".word B",
        "A: .pos 3",
        "ret",
    ];
    let ns = small.len();
    let len = ctx.pick(5, 6);
    texts_fam(
        ctx,
        &format!("all sequences of {len} lines over a small alphabet"),
        ns.pow(len as u32),
        w,
        |i| {
            let mut d = Dig(i);
            let mut s = String::new();
            for _ in 0..len {
                s += small[d.d(ns)];
                s += "\n";
            }
            for l in ["A", "B"] {
                if !s.contains(&format!("{l}:")) {
                    s += &format!("{l}:\n");
                }
            }
            Some(s)
        },
    );
    // every alignment at every offset
    texts_fam(ctx, "alignment x offset", 17 * 300, w, |i| {
        let (a, o) = (1u64 << (i % 17), i / 17);
        Some(format!(
            ".pos {o}\n.align {a}\nX: .byte 7\n.pos 0\n.quad X\n"
        ))
    });
    let mut addrs: Vec<u64> = (0..64)
        .chain((0..16).map(|k| 1 << k))
        .chain(0xffe0..0x10002)
        // addresses beyond the memory can be positions and labels
        .chain((17..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 0x123]))
        .chain([u64::MAX - 7, u64::MAX - 1, u64::MAX])
        .chain(mined())
        .collect();
    addrs.sort();
    addrs.dedup();
    let na = addrs.len();
    let things = [
        ".byte 1",
        ".word 0x1234",
        ".long 0x12345678",
        ".quad 0x1122334455667788",
        "nop",
        "rrmovq %rax,%rcx",
        "jmp Z",
        "irmovq Z, %rdx",
        "Y:",
        "#",
    ];
    texts_fam(
        ctx,
        "every directive at every boundary address",
        na * things.len() * 3,
        w,
        |i| {
            let mut d = Dig(i);
            let (t, k, a) = (things[d.d(things.len())], d.d(3), addrs[d.d(na)]);
            Some(match k {
                0 => format!(".pos {a:#x}\n{t}\nZ:\n"),
                1 => format!("Z: .pos {a}\nY: {t}\n.pos 0\n.quad Y\n.quad Z\n")
                    .replace("Y: Y:", "Y:"),
                _ => format!("Z:\n.pos {a:#x}\n{t}\n{t}\n"),
            })
        },
    );
    // overwriting
    texts_fam(ctx, "overlapping lines", 13 * 13 * 36, w, |i| {
        let mut d = Dig(i);
        let (p, q, x, y) = (d.d(13), d.d(13), d.d(6), d.d(6));
        let t = [
            ".quad 0x1111111111111111",
            ".byte 0x22",
            "irmovq $0x3333, %rbx",
            "halt",
            ".long 0x44444444",
            "call Z",
        ];
        Some(format!("Z: .pos {p}\n{}\n.pos {q}\n{}\n", t[x], t[y]))
    });
    // names that differ in case, at one end, in length or far behind: each label has its own value
    let mut names: Vec<String> = [
        "a", "A", "aa", "aA", "Aa", "a_", "_a", "_A", "__a", "a0", "a00", "a1", "a01", "ab", "ba", "b",
        "loop", "Loop", "LOOP", "loop_", "loop1", "loop10", "loop2", "rax", "RAX", "nop", "NOP", "pos",
    ]
    .map(String::from)
    .to_vec();
    for n in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000] {
        let x = "L".repeat(n);
        names.extend([format!("{x}x"), format!("{x}X"), format!("x{x}"), x]);
    }
    let nn = names.len();
    texts_fam(ctx, "pairs of names", nn * nn * 3, w, |i| {
        let mut d = Dig(i);
        let (x, y, k) = (&names[d.d(nn)], &names[d.d(nn)], d.d(3));
        Some(match k {
            0 => format!("{x}: jmp {y}\n{y}: call {x}\nnop\n.quad {y}\n.word {x}\nirmovq {y}, %rax\n"),
            1 => format!("jmp {y}\njmp {x}\n{y}:\n.byte 3\n{x}:\n"),
            // only one of them is defined
            _ => format!("nop\n{x}: nop\njmp {y}\n"),
        })
    });
    texts_fam(ctx, "many labels", 12, w, |i| {
        let n = [1usize, 2, 9, 100, 255, 256, 257, 300, 1000, 1023, 2000, 4000][i];
        let mut s = String::new();
        for k in 0..n {
            s += &format!("L{k}: jmp L{}\n", (k * 7 + n / 2) % n);
            if k % 5 == 0 {
                s += &format!("m{k}_{k}:\n");
            }
        }
        Some(s)
    });
    // many lines: addresses accumulate, forward and backward references over a distance
    texts_fam(ctx, "long files", 60, w, |i| {
        let mut s = String::from("first:\n");
        for k in 0..(i + 1) * 23 {
            s += &[
                "nop\n",
                "irmovq last, %rax\n",
                ".quad first\n",
                "M: rrmovq %rax,%rbx\n",
                "jne M\n",
                ".byte 3\n",
                ".align 2\n",
            ][(k * k + k + i) % 7]
                .replace("M:", &format!("M{k}:"));
            s = s.replace("jne M\n", "jne first\n");
        }
        Some(s + "last: halt\n")
    });
}

// -------------------------------------------------------------------------- C16

pub fn literals(thorough: bool) -> Vec<String> {
    let mut mags: Vec<u128> = vec![];
    for i in 0..66 {
        for d in [-2i128, -1, 0, 1, 2] {
            let v = (1i128 << i) + d;
            if v >= 0 {
                mags.push(v as u128);
            }
        }
    }
    let mut p = 1u128;
    for _ in 0..22 {
        mags.extend([p, p - 1, p + 1, 9 * p]);
        p *= 10;
    }
    mags.extend([
        0x0123456789abcdef,
        0xfedcba9876543210,
        0xdeadbeef,
        12345678901234567890,
        99999999999999999999,
    ]);
    mags.extend(mined().into_iter().map(|x| x as u128));
    mags.extend(0..if thorough { 70000 } else { 600 });
    mags.sort();
    mags.dedup();
    let mut v = vec![];
    for m in mags {
        let mut f = vec![format!("{m}"), format!("{m:#x}"), format!("0x{m:X}")];
        if m < 300 || m > 1 << 50 || m.is_power_of_two() {
            f.push(format!("00{m}"));
            f.push(format!("0x0{m:x}"));
            f.push(format!("0x{m:020x}"));
            f.push(format!("{m:025}"));
            f.push(format!(
                "0x{}",
                format!("{m:x}")
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if i % 2 == 0 {
                        c.to_ascii_uppercase()
                    } else {
                        c
                    })
                    .collect::<String>()
            ));
        }
        for x in f {
            v.push(format!("-{x}"));
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c16(ctx: &Arc<Ctx>) {
    let w = What { listing: false };
    let l = literals(ctx.thorough());
    ctx.note("literals", json!(l.len()));
    // each position alone: acceptance, value
    let pos: Vec<&str> = vec![
        "irmovq $@, %rax",
        "iaddq $@, %rcx",
        "isubq $@, %r8",
        "iandq $@, %rsp",
        "ixorq $@, %r14",
        "rmmovq %rax, @(%rbx)",
        "mrmovq @(%rbx), %rax",
        ".quad @",
        ".long @",
        ".word @",
        ".byte @",
        ".pos @",
        ".align @",
        ".pos 3\nX: .align @\n.pos 0x80\n.quad X",
        ".pos @\nX:\n.pos 0x80\n.quad X",
    ];
    let np = pos.len();
    texts_fam(ctx, "literal x position", l.len() * np, w, |i| {
        Some(pos[i % np].replace('@', &l[i / np]))
    });
    // malformed literals
    let bad = [
        "--1", "-", "+1", "0x", "0xg", "1x", "0X10", "- 1", "1-", "0x-1", "1_000", "0b1", "$1",
        "1.5", "1e3", "0x1p", "١", "-0x", "10h", "",
    ];
    let pre = [
        "irmovq $@, %rax",
        "rmmovq %rax, @(%rbx)",
        "mrmovq @(%rbx), %rax",
        ".quad @",
        ".byte @",
        ".pos @",
        ".align @",
        "ixorq $@, %r14",
    ];
    texts_fam(
        ctx,
        "malformed literal x position",
        bad.len() * pre.len(),
        w,
        |i| {
            let (b, p) = (bad[i % bad.len()], pre[i / bad.len()]);
            Some(p.replace('@', b))
        },
    );
    // every string over the characters of literals
    let al = b"-0x19afF8";
    let (n, np) = (ctx.pick(6, 7), ["irmovq $@, %rax\n", ".quad @\n"]);
    texts_fam(
        ctx,
        &format!("all strings of {n} literal characters"),
        9usize.pow(n) * 2,
        w,
        |i| {
            let mut d = Dig(i / 2);
            let s: String = (0..n).map(|_| al[d.d(9)] as char).collect();
            Some(np[i % 2].replace('@', &s))
        },
    );
}

// -------------------------------------------------------------------------- C17

const TOKENS: [&str; 46] = [
    " ", "\t", "\n", "\r", "#", ":", ",", "$", "(", ")", "%rax", "%r8", "%r10", "%rsp", "%", "a",
    "L1", "_", "0", "12", "0x1f", "-", "-3", "halt", "ret", "irmovq", "rmmovq", "mrmovq", "rrmovq",
    "cmovle", "addq", "ixorq", "jmp", "jle", "jl", "call", "pushq", "popq", ".pos", ".align",
    ".quad", ".byte", ".", "é", "a:", "0x",
];

pub fn base_programs() -> Vec<String> {
    vec![
        "irmovq $0x10, %rax\naddq %rax, %rbx # c\nL: jne L\nhalt\n".into(),
        "main: call f\n  halt\nf:\n\tmrmovq -8(%rsp), %rcx\n\tret\n.align 8\nd: .quad d\n.byte 255\n.pos 0x100\n".into(),
        "pushq %r14\npopq %rsp\ncmovge %rdi, %rsi\nrmmovq %rbp, (%rdx)\nisubq x, %r9\nx: .word 7\n.long -1\nnop\nixorq $-5,%r10".into(),
    ]
}

pub fn c17(ctx: &Arc<Ctx>) {
    let w = What { listing: true };
    let n = TOKENS.len();
    for len in 0..=ctx.pick(4, 5) {
        texts_fam(
            ctx,
            &format!("all strings of {len} tokens"),
            n.pow(len as u32),
            w,
            |i| {
                let mut d = Dig(i);
                Some((0..len).map(|_| TOKENS[d.d(n)]).collect())
            },
        );
    }
    // longer lines: token strings separated by blanks behind each kind of start
    let starts = [
        "irmovq $1",
        "rmmovq %rax",
        "mrmovq 4(%rbx)",
        "addq %rax",
        "cmovl %rax",
        "call a",
        "jge a",
        "pushq %rax",
        ".quad 1",
        ".pos 1",
        ".align 2",
        "a: halt",
        "iaddq a",
        "a:",
    ];
    let after = [
        " ", ",", ", ", "%rbx", "(%rbx)", "5(%rbx)", "#", "\n", "a:", "\na:", "5", "$5", "a",
        "halt", "\r\n", "-", "é", "#é", "|", ";", "\0",
    ];
    let (ns, na) = (starts.len(), after.len());
    let k = ctx.pick(3, 4);
    texts_fam(
        ctx,
        &format!("line starts followed by {k} tokens"),
        ns * na.pow(k),
        w,
        |i| {
            let mut d = Dig(i);
            let mut s = starts[d.d(ns)].to_string();
            for _ in 0..k {
                s += after[d.d(na)];
            }
            Some(s)
        },
    );
    // character level
    let ch: Vec<char> = " \t\n\r#:,$()%-.0xaqé".chars().collect();
    let nc = ch.len();
    for len in 1..=ctx.pick(5, 6) {
        texts_fam(
            ctx,
            &format!("all strings of {len} characters"),
            nc.pow(len as u32),
            w,
            |i| {
                let mut d = Dig(i);
                Some((0..len).map(|_| ch[d.d(nc)]).collect())
            },
        );
    }
    // every single-character edit of whole programs
    for (pi, p) in base_programs().into_iter().enumerate() {
        let cs: Vec<char> = p.chars().collect();
        let mut alpha: Vec<char> = (0u8..128).map(|b| b as char).collect();
        alpha.extend(['é', '\u{2028}', '٣', '\u{feff}', '😀']);
        let (nc, na) = (cs.len(), alpha.len());
        texts_fam(
            ctx,
            &format!("every single-character edit of program {pi}"),
            (nc + 1) * na * 2 + nc,
            w,
            |i| {
                if i < (nc + 1) * na * 2 {
                    let mut d = Dig(i);
                    let (k, a, at) = (d.d(2), alpha[d.d(na)], d.d(nc + 1));
                    let mut c = cs.clone();
                    if k == 0 {
                        c.insert(at, a);
                    } else if at < nc {
                        c[at] = a;
                    } else {
                        return None;
                    }
                    Some(c.into_iter().collect())
                } else {
                    let mut c = cs.clone();
                    c.remove(i - (nc + 1) * na * 2);
                    Some(c.into_iter().collect())
                }
            },
        );
    }
    // bytes at and beyond the end of memory, huge positions and alignments
    let ps = [
        "0xffff",
        "0xfffe",
        "0xfff8",
        "0xfff7",
        "0xfff6",
        "0xfff5",
        "0x10000",
        "0x10001",
        "-1",
        "-8",
        "0x7fffffffffffffff",
        "0x8000000000000000",
        "0xfffffffffffffff0",
        "65535",
        "4294967296",
        "1",
    ];
    let aligns = [
        "1",
        "2",
        "8",
        "0",
        "3",
        "-1",
        "0x10000",
        "0x8000000000000000",
        "-9223372036854775808",
        "0x20000",
        "6",
    ];
    let things = [
        "halt",
        ".byte 1",
        ".word 1",
        ".long 1",
        ".quad 1",
        "addq %rax,%rax",
        "jmp x",
        "irmovq x,%rax",
        "x:",
        "",
        "#",
        ".align 4",
        ".pos 0",
        "x: .align 16",
        "x: halt",
    ];
    let (np, na, nt) = (ps.len(), aligns.len(), things.len());
    texts_fam(ctx, "position x two lines", np * nt * nt * 2, w, |i| {
        let mut d = Dig(i);
        let (p, a, b, l) = (ps[d.d(np)], things[d.d(nt)], things[d.d(nt)], d.d(2));
        let s = format!(".pos {p}\n{a}\n{b}\n");
        Some(if l == 1 { format!("x:\n{s}") } else { s })
    });
    texts_fam(ctx, "position x alignment x line", np * na * nt, w, |i| {
        let mut d = Dig(i);
        let (p, a, t) = (ps[d.d(np)], aligns[d.d(na)], things[d.d(nt)]);
        Some(format!("x:\n.pos {p}\n.align {a}\n{t}\n"))
    });
    // undefined labels: each operand position
    let refs = [
        "irmovq u, %rax",
        "iaddq u, %rax",
        "jmp u",
        "jg u",
        "call u",
        ".quad u",
        ".byte u",
        ".word u",
        ".long u",
    ];
    let defs = ["", "u:", "U:", "u_:", "u: halt", "# u:", "u1:", "_u:"];
    texts_fam(
        ctx,
        "label reference x definition x order",
        refs.len() * defs.len() * 2,
        w,
        |i| {
            let mut d = Dig(i);
            let (r, f, o) = (refs[d.d(refs.len())], defs[d.d(defs.len())], d.d(2));
            Some(if o == 0 {
                format!("{r}\n{f}\n")
            } else {
                format!("{f}\n{r}\n")
            })
        },
    );
    // more lines and bytes than 16 bits (20 bits) count, and an error behind them
    let tails = ["halt\n", "halt", "rax\n", "jmp a\n", "a: jmp a", ".byte 0x", "\u{0}"];
    texts_fam(ctx, "very long texts", tails.len() * 4, w, |i| {
        let mut s = match i % 4 {
            0 => "\n".repeat(70_000),
            1 => format!("{}\n", "# comment ".repeat(120_000)),
            2 => "  # some comment\n".repeat(140_000),
            _ => "nop\n".repeat(65_000),
        };
        s += tails[i / 4];
        Some(s)
    });
    // long lines and many lines
    texts_fam(ctx, "sizes", 24, w, |i| {
        Some(match i % 4 {
            0 => "a".repeat(1 << (i / 4 * 2)) + ": halt",
            1 => " ".repeat(1 << (i / 4 * 2)) + "halt #" + &"#".repeat(i * 50),
            2 => "\n".repeat(1 << (i / 4 * 2)),
            _ => "nop\n".repeat(1 << (i / 4 * 2)),
        })
    });
}

// -------------------------------------------------------------------------- C18 (in-process part)

pub fn listing_families(ctx: &Arc<Ctx>) {
    let w = What { listing: true };
    layout(ctx, w);
    // source text is shown unchanged: every line style, comments with the separators of the listing, any character
    let styles = [
        "@",
        " @",
        "\t@",
        "@ ",
        "@\t",
        "@#",
        "@ # a | b : c",
        "L: @",
        "L:@",
        " L : @",
        "L:\t@ # 0x0000: 00 | halt",
        "@ #\t\té✓",
        "@# \u{1}\u{7f}",
        "@ # trailing blanks   ",
    ];
    let its = inst_texts(&["0x123456789abcdef0".into(), "-1".into()]);
    let mut forms: Vec<String> = pick_forms(&its)
        .into_iter()
        .map(|(m, o)| format!("{m} {}", o.join(", ")).trim_end().to_string())
        .collect();
    forms.extend(
        [
            ".byte 0x12",
            ".word -2",
            ".long L",
            ".quad L",
            ".pos 0x30",
            ".align 8",
            "",
        ]
        .map(|s| s.to_string()),
    );
    let (ns, nf) = (styles.len(), forms.len());
    texts_fam(
        ctx,
        "line style x content x file shape",
        ns * nf * 6,
        w,
        |i| {
            let mut d = Dig(i);
            let (st, f, k) = (styles[d.d(ns)], &forms[d.d(nf)], d.d(6));
            let l = st.replace('@', f);
            let mut s = match k {
                0 => l.clone(),
                1 => format!("{l}\n"),
                2 => format!("\n\n{l}\n\n"),
                3 => format!("halt\r\n{l}\r\nhalt"),
                4 => format!(".pos 0xfff0\n{l}\n"),
                _ => format!("# 1\n{l}\n{l}\n#2"),
            };
            for w in f.split([' ', ',']) {
                if w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
                    && LABELS.contains(&w)
                    || w == "L" && !l.contains("L:") && !l.contains("L :")
                {
                    s += &format!("\n.pos 0x7000\n{w}:");
                }
            }
            Some(s)
        },
    );
}
