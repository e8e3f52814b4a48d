//! The command-line tools as processes: C18 (listing, reload), C23 (cycle limits), C24 (reports).
use crate::arch::*;
use crate::asmc;
use crate::common::*;
use crate::fam::*;
use crate::hazards;
use crate::prog::*;
use crate::refasm::{self, Verdict};
use crate::refisa::*;
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Limits for a child: CPU seconds, and it ends with the thread that started it.
pub fn limit(c: &mut Command, cpu: u64) {
    unsafe {
        c.pre_exec(move || {
            setrlimit(0, &[cpu, cpu + 1]);
            setrlimit(4, &[0, 0]);
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
}

pub fn bin(name: &str) -> PathBuf {
    let p = PathBuf::from(format!("{}/build/bins/release/{name}", verif_dir()));
    assert!(p.exists(), "{p:?} is missing");
    p
}

pub struct Out {
    pub code: Option<i32>,
    pub sig: Option<i32>,
    pub out: String,
    pub err: String,
}

impl Out {
    /// A Rust panic, a signal (abort, overflow of the stack, time limit).
    pub fn crash(&self) -> Option<String> {
        if self.code == Some(101) || self.err.contains("panicked at") {
            return Some(format!(
                "panic: {}",
                self.err
                    .lines()
                    .find(|l| l.contains("panicked"))
                    .unwrap_or("")
            ));
        }
        self.sig.map(|s| {
            if s == 24 || s == 9 {
                "runs on without end".to_string()
            } else {
                format!("killed by signal {s}")
            }
        })
    }
}

pub fn run(name: &str, args: &[&str], cwd: &Path, keep_out: bool) -> Out {
    let mut c = Command::new(bin(name));
    c.args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stderr(Stdio::piped());
    c.stdout(if keep_out {
        Stdio::piped()
    } else {
        Stdio::null()
    });
    c.env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
    limit(&mut c, 20);
    let o = c
        .output()
        .unwrap_or_else(|e| panic!("cannot start {name}: {e}"));
    Out {
        code: o.status.code(),
        sig: o.status.signal(),
        out: strip(&o.stdout),
        err: strip(&o.stderr),
    }
}

/// Remove terminal styles.
pub fn strip(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

static DIRS: AtomicU64 = AtomicU64::new(0);

pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        let base = if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let p = base
            .join(format!("y86mc-{}", std::process::id()))
            .join(DIRS.fetch_add(1, SeqCst).to_string());
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
    pub fn file(&self, name: &str, text: impl AsRef<[u8]>) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, text).expect("scratch file");
        p
    }
    pub fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
            .collect();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
        if let Some(p) = self.0.parent() {
            std::fs::remove_dir(p).ok();
        }
    }
}

/// Log lines that the tools print between their output.
pub fn is_log(l: &str) -> bool {
    ["ERROR ", "WARN ", "INFO ", "DEBUG ", "TRACE "]
        .iter()
        .any(|p| l.trim_start().starts_with(p))
        && !l.starts_with("0x")
}

// ------------------------------------------------------------------ expected reports

const IN: [&str; 13] = [
    "HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ",
    "POPQ", "IOPQ",
];
const RN: [&str; 16] = [
    "RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13",
    "R14", "RNONE",
];

pub fn inst_line(d: &Dec, pc: u64) -> String {
    let mut s = format!(
        "{pc:#06x}  icode: {:#x} ({}), ifun: {}",
        d.icode, IN[d.icode as usize], d.ifun
    );
    if !matches!(d.icode, 0 | 1 | 7 | 8 | 9) {
        s += &format!(", rA: {}, rB: {}", RN[d.ra as usize], RN[d.rb as usize]);
    }
    if matches!(d.icode, 3 | 7 | 8 | 0xc) {
        s += &format!(", V: {:#x}", d.valc);
    }
    s
}

pub fn reg_lines(r: &[u64; 16]) -> [String; 2] {
    [
        format!(
            "ax {:016x} bx {:016x} cx {:016x} dx {:016x}",
            r[0], r[3], r[1], r[2]
        ),
        format!(
            "si {:016x} di {:016x} sp {:016x} bp {:016x}",
            r[6], r[7], r[4], r[5]
        ),
    ]
}

pub fn diff_lines(a: &Mem, b: &Mem) -> Vec<String> {
    (0..MEM)
        .step_by(8)
        .filter(|&i| a[i..i + 8] != b[i..i + 8])
        .map(|i| format!("{i:#06x}: {} -> {}", hex(&a[i..i + 8]), hex(&b[i..i + 8])))
        .collect()
}

/// What yis should do with an image.
pub struct Yis {
    pub lines: Vec<String>,
    pub ok: bool,
    pub insts: u64,
}

pub fn yis_expect(m0: &Mem, max: u64) -> Option<Yis> {
    let mut m = Box::new(*m0);
    let mut r = Machine::default();
    let mut lines = vec![];
    loop {
        if r.n >= max {
            return None;
        }
        let pc = r.pc;
        let e = r.step(&mut m);
        if e.dec.is_some_and(|d| d.enc == Enc::Odd) {
            return None;
        }
        match e.stat {
            Stat::Aok => lines.push(inst_line(&e.dec.unwrap(), pc)),
            Stat::Hlt => {
                lines.push(inst_line(&e.dec.unwrap(), pc));
                lines.push(format!("total instructions: {}", r.n));
                lines.extend(reg_lines(&r.regs));
                lines.extend(diff_lines(m0, &m));
                return Some(Yis {
                    lines,
                    ok: true,
                    insts: r.n,
                });
            }
            _ => {
                return Some(Yis {
                    lines,
                    ok: false,
                    insts: r.n,
                })
            }
        }
    }
}

fn first_diff(want: &[String], got: &[&str]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i).map(|s| s.as_str()), got.get(i).copied());
        if w != g {
            return Some(format!(
                "output line {} is {:?}, should be {:?}",
                i + 1,
                g.unwrap_or("missing"),
                w.unwrap_or("absent")
            ));
        }
    }
    None
}

pub fn yis_compare(e: &Yis, o: &Out) -> Result<(), String> {
    if let Some(c) = o.crash() {
        return Err(format!("yis crashed: {c}"));
    }
    let got: Vec<&str> = o
        .out
        .lines()
        .filter(|l| !l.trim().is_empty() && !is_log(l))
        .collect();
    if e.ok {
        if o.code != Some(0) {
            return Err(format!(
                "yis exits with {:?} although the program halts: {}",
                o.code,
                o.err.trim()
            ));
        }
        if let Some(d) = first_diff(&e.lines, &got) {
            return Err(format!("yis {d}"));
        }
    } else {
        if o.code == Some(0) {
            return Err("yis exits with 0 although the execution is faulty".into());
        }
        for (i, w) in e.lines.iter().enumerate() {
            if got.get(i) != Some(&w.as_str()) {
                return Err(format!(
                    "yis output line {} is {:?}, should be {w:?}",
                    i + 1,
                    got.get(i)
                ));
            }
        }
        if got.len() > e.lines.len() + 1 || got.iter().any(|l| l.contains("total instructions")) {
            return Err(
                "yis reports more than the executed instructions of a faulty program".into(),
            );
        }
    }
    Ok(())
}

/// The listing of an image.
pub fn image_yo(m: &Mem) -> String {
    let mut s = String::new();
    for i in (0..MEM).step_by(8) {
        if m[i..i + 8].iter().any(|b| *b != 0) {
            s += &format!("{i:#06x}: {:<21}| \n", hex(&m[i..i + 8]));
        }
    }
    s
}

pub fn image_ys(m: &Mem) -> String {
    let mut s = String::new();
    let mut at = 0;
    for i in (0..MEM).step_by(8) {
        if m[i..i + 8].iter().any(|b| *b != 0) {
            if at != i {
                s += &format!(".pos {i:#x}\n");
            }
            s += &format!(
                ".quad {:#x}\n",
                u64::from_le_bytes(m[i..i + 8].try_into().unwrap())
            );
            at = i + 8;
        }
    }
    s
}

/// One cycle of a simulation: pc, registers, condition codes.
pub struct Cyc {
    pub pc: u64,
    pub regs: [u64; 16],
}

/// What ysim should print: for the sequential architectures from the reference model; for the pipeline from the
/// simulator itself driven in-process (whose states C05 and C27 compare).
pub struct Ysim {
    pub cycles: Vec<Cyc>,
    pub mem: Box<Mem>,
    pub stopped: bool,
}

pub fn ysim_expect(arch: &str, m0: &Mem, max: u64) -> Result<Ysim, String> {
    let mut cycles = vec![];
    if arch != "pipe_std" {
        let mut m = Box::new(*m0);
        let mut r = Machine::no_iopq();
        while r.stat == Stat::Aok && (cycles.len() as u64) < max {
            let pc = r.pc;
            let e = r.step(&mut m);
            if e.dec.is_some_and(|d| d.enc == Enc::Odd) {
                return Err("outside the domain".into());
            }
            if !matches!(e.stat, Stat::Aok | Stat::Hlt) {
                return Err("outside the domain".into());
            }
            cycles.push(Cyc {
                pc,
                regs: r.regs,
            });
        }
        return Ok(Ysim {
            cycles,
            mem: m,
            stopped: r.stat != Stat::Aok,
        });
    }
    let mut s = new_sim(arch, m0);
    while (cycles.len() as u64) < max {
        if !cycles.is_empty() {
            s.sim.initiate_next_cycle();
        }
        s.sim.propagate_signals();
        cycles.push(Cyc {
            pc: s.sim.program_counter(),
            regs: s.sim.registers(),
        });
        if s.sim.is_terminate() {
            let mem = Box::new(*s.mem.read());
            return Ok(Ysim {
                cycles,
                mem,
                stopped: true,
            });
        }
    }
    let mem = Box::new(*s.mem.read());
    Ok(Ysim {
        cycles,
        mem,
        stopped: false,
    })
}

fn is_diff_line(l: &str) -> bool {
    l.starts_with("0x") && l.contains(" -> ")
}

/// Compare the output of ysim: every cycle's pc, registers and condition codes (the codes at the end of the cycle
/// for the pipeline are those of its state), and the memory difference.
pub fn ysim_compare(arch: &str, m0: &Mem, e: &Ysim, o: &Out) -> Result<(), String> {
    if let Some(c) = o.crash() {
        return Err(format!("ysim crashed: {c}"));
    }
    if e.stopped != (o.code == Some(0)) {
        return Err(format!(
            "ysim exits with {:?}, the program {}: {}",
            o.code,
            if e.stopped {
                "stops within the limit"
            } else {
                "does not stop within the limit"
            },
            o.err.trim()
        ));
    }
    let (mut pcs, mut regs, mut n, mut diff) = (vec![], vec![], vec![], vec![]);
    for l in o.out.lines() {
        if is_log(l) {
            continue;
        }
        if let Some(r) = l.strip_prefix("PC = ") {
            pcs.push(r.to_string());
        } else if l.starts_with("ax ") || l.starts_with("si ") {
            regs.push(l.to_string());
        } else if l.contains(" [Cycle ") && l.starts_with('=') {
            n.push(
                l.split("[Cycle ")
                    .nth(1)
                    .unwrap()
                    .split(' ')
                    .next()
                    .unwrap()
                    .to_string(),
            );
        } else if is_diff_line(l) {
            diff.push(l);
        }
    }
    let k = e.cycles.len();
    if e.stopped && (pcs.len() != k || n.len() != k || regs.len() != 2 * k) {
        return Err(format!(
            "ysim prints {} cycles, {} pc lines and {} register lines; the run has {k} cycles",
            n.len(),
            pcs.len(),
            regs.len()
        ));
    }
    if pcs.len() < k || n.len() < k || regs.len() < 2 * k {
        return Err(format!(
            "ysim prints {} cycles, should print {k}",
            pcs.len()
        ));
    }
    for (i, c) in e.cycles.iter().enumerate() {
        if n[i] != (i + 1).to_string() {
            return Err(format!("ysim numbers cycle {} as {}", i + 1, n[i]));
        }
        if pcs[i] != format!("{:#x}", c.pc) {
            return Err(format!(
                "ysim prints PC = {} in cycle {}, should be {:#x}",
                pcs[i],
                i + 1,
                c.pc
            ));
        }
        let w = reg_lines(&c.regs);
        for j in 0..2 {
            if regs[2 * i + j] != w[j] {
                return Err(format!(
                    "ysim prints registers {:?} in cycle {}, should be {:?}",
                    regs[2 * i + j],
                    i + 1,
                    w[j]
                ));
            }
        }
    }
    let want = if e.stopped {
        diff_lines(m0, &e.mem)
    } else {
        vec![]
    };
    if let Some(d) = first_diff(&want, &diff) {
        return Err(format!("ysim {arch} memory difference: {d}"));
    }
    Ok(())
}

fn viol(ctx: &Ctx, what: String, key: String, case: Value) {
    ctx.violation(Viol::new(what, key, case));
}

fn clip(s: &str) -> String {
    if s.len() < 6000 {
        s.to_string()
    } else {
        let mut k = 6000;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], s.len())
    }
}

// ------------------------------------------------------------------ C18

/// A walker that complements every word of a region, so that the old contents show in the memory difference.
fn walker(at: u64, from: u64, to: u64) -> String {
    format!(
        ".pos {at:#x}\n\
         Wstart: irmovq ${from}, %rdi\n irmovq $8, %r8\n irmovq $-1, %r9\n irmovq ${to}, %r10\n\
         Wloop: mrmovq (%rdi), %rsi\n xorq %r9, %rsi\n rmmovq %rsi, (%rdi)\n addq %r8, %rdi\n rrmovq %rdi, %rbx\n subq %r10, %rbx\n jl Wloop\n halt\n"
    )
}

/// yas, then yis: the memory image after reload is that of the assembler.
fn reload(d: &Dir, src: &str) -> Result<Option<u64>, String> {
    let Verdict::Ok(obj) = refasm::assemble(src) else {
        return Ok(None);
    };
    let Some(e) = yis_expect(&obj.mem, 200_000) else {
        return Ok(None);
    };
    d.file("p.ys", src);
    std::fs::remove_file(d.0.join("p.yo")).ok();
    let a = run("yas", &["p.ys"], &d.0, true);
    if let Some(c) = a.crash() {
        return Err(format!("yas crashed: {c}"));
    }
    if a.code != Some(0) {
        return Err(format!("yas refused a well-formed file: {}", a.err));
    }
    let yo = std::fs::read_to_string(d.0.join("p.yo")).map_err(|x| format!("no listing: {x}"))?;
    asmc::compare_listing(&yo, &obj)?;
    let o = run("yis", &["p.yo"], &d.0, true);
    yis_compare(&e, &o)?;
    Ok(Some(e.insts))
}

/// The meaning of a listing: Some(Ok(image)), Some(Err) if it has to be refused, None if open.
pub fn ref_load(text: &str) -> Option<Result<Box<Mem>, ()>> {
    let mut m = Box::new([0u8; MEM]);
    let mut open = false;
    let mut bad = false;
    for l in text.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let Some(bar) = l.find('|') else {
            open |= !l.trim().is_empty();
            continue;
        };
        let Some(col) = l[..bar].find(':') else {
            open |= !l[..bar].trim().is_empty();
            continue;
        };
        let (a, v) = (l[..col].trim(), l[col + 1..bar].trim());
        let addr = match a.strip_prefix("0x") {
            Some(h)
                if !h.is_empty() && h.bytes().all(|b| b.is_ascii_hexdigit()) && h.len() <= 16 =>
            {
                Some(u64::from_str_radix(h, 16).unwrap())
            }
            _ => None,
        };
        let Some(addr) = addr else {
            let t = a.strip_prefix('-').unwrap_or(a);
            let t = t.strip_prefix("0x").unwrap_or(t);
            if !t.is_empty() && t.bytes().all(|b| b.is_ascii_hexdigit()) {
                open = true; // other number formats
            } else {
                bad = true;
            }
            continue;
        };
        if v.is_empty() {
            continue;
        }
        if v.len() % 2 != 0 || !v.bytes().all(|b| b.is_ascii_hexdigit()) {
            bad = true;
            continue;
        }
        let b = unhex(v);
        if addr as u128 + b.len() as u128 > MEM as u128 {
            bad = true;
            continue;
        }
        m[addr as usize..addr as usize + b.len()].copy_from_slice(&b);
    }
    if bad {
        // later lines do not make it well-formed
        return Some(Err(()));
    }
    if open {
        return None;
    }
    Some(Ok(m))
}

pub fn c18(ctx: &Arc<Ctx>) {
    // listings in process
    asmc::listing_families(ctx);
    if ctx.stopped() {
        return;
    }
    // reload through the tools
    let mut srcs: Vec<String> = vec![];
    let al: Vec<&str> = asmc::layout_alphabet();
    let n = al.len();
    let extra = [
        "A: B: ",
        "nop # a | b : c",
        "# 0x0000: 00 | x",
        "A: .quad 0x8877665544332211 # |",
        "  halt   ",
        "\t.byte 0xab",
        "rmmovq %rax, 0x7fffffffffffffff(%rsp)",
        "B: # only a label",
    ];
    let al: Vec<&str> = al.into_iter().chain(extra).collect();
    let na = al.len();
    let _ = n;
    for i in 0..na * na {
        let (x, y) = (al[i % na], al[i / na]);
        let mut s = format!("jmp Wstart\n{x}\n{y}\n");
        for l in ["A", "B"] {
            if !s.contains(&format!("{l}:")) {
                s += &format!("{l}:\n");
            }
        }
        srcs.push(s + &walker(0x800, 0, 0x80));
    }
    // instruction forms and data at many addresses, also at the end of memory
    let its = asmc::inst_texts(&["0x123456789abcdef0".into(), "-1".into()]);
    for (k, (m, o)) in asmc::pick_forms(&its).into_iter().enumerate() {
        let lab: String = o
            .iter()
            .filter(|x| x.starts_with(|c: char| c.is_alphabetic() || c == '_'))
            .map(|l| format!(".pos 0x7123\n{l}:\n"))
            .collect();
        for at in [0x10 + (k as u64 % 13), 0x10000 - 10] {
            let (f, t) = (at & !7, (at & !7) + 24);
            srcs.push(format!(
                "jmp Wstart\n.pos {at}\n{m} {}\n{lab}{}",
                o.join(", "),
                walker(0x800, f, t.min(0x10000))
            ));
        }
    }
    // whole memory filled
    for k in 0..ctx.pick(3usize, 12) {
        let mut s = String::from("jmp Wstart\n.align 8\n");
        let mut a = 16u64;
        while a < 0x10000 {
            if a == 0x800 {
                a = 0x900;
                s += &format!(".pos {a}\n");
            }
            s += &format!(
                ".quad {:#x}\n",
                (a.wrapping_mul(0x9e3779b97f4a7c15)).rotate_left(k as u32 * 5) | 1
            );
            a += 8;
        }
        srcs.push(s.clone() + &walker(0x800, 0x900, 0x10000));
    }
    let ns = srcs.len();
    ctx.par(ns.div_ceil(16), |ch| {
        let d = Dir::new();
        for i in ch * 16..((ch + 1) * 16).min(ns) {
            let s = &srcs[i];
            ctx.begin(|| json!({"source": clip(s)}));
            match reload(&d, s) {
                Ok(Some(k)) => ctx.add(k + 1, k, 1),
                Ok(None) => {
                    ctx.skipped.fetch_add(1, Relaxed);
                }
                Err(e) => viol(
                    ctx,
                    format!("{e}"),
                    format!(
                        "reload:{}",
                        s.lines().skip(1).take(2).collect::<Vec<_>>().join("; ")
                    ),
                    json!({"source": clip(s)}),
                ),
            }
            ctx.end();
            if i == 77 {
                ctx.sample(json!({"reloaded source": s}));
            }
        }
    });
    ctx.outcome(
        "sources assembled by yas and run from the listing by yis",
        ns as u64,
    );
    if ctx.stopped() {
        return;
    }
    // malformed listings: every single-character edit of a listing
    let base = [
        "0x0000: 30f30700000000000000 | irmovq $7, %rbx\n                             | # c: x\n0x000a: 6033                 | x: addq %rbx, %rbx\n0x000c:                      | y:\n0xffff: 00                   | z: .byte 0\n0x000c: 00                   | halt\n",
        "0x000: 10 | nop\n0x0001: 00 | halt\n",
    ];
    let alpha: Vec<u8> = if ctx.thorough() {
        (0u8..=255).collect()
    } else {
        b" 019afgGxX:|-+\n\r\t.\xc3\xff\0_".to_vec()
    };
    let mut edits: Vec<Vec<u8>> = vec![
        vec![],
        b"\n".to_vec(),
        b"|".to_vec(),
        b":|".to_vec(),
        b"0x0:|".to_vec(),
        b"0x10000:|".to_vec(),
        b"0x10000:00|".to_vec(),
    ];
    for a in [
        "0xffff",
        "0xfffe",
        "0xfff6",
        "0xfff7",
        "0x10000",
        "0x1ffff",
        "0xffffffffffffffff",
        "0xfffffffffffffff8",
        "0x10000000000000000",
        "0x8000000000000000",
        "0x",
        "x",
        "",
        "0xg",
        "zz",
        "0x 1",
        "1x",
        "0x1 2",
    ] {
        for v in [
            "",
            "00",
            "0000",
            "0",
            "000",
            "10203040506070809000",
            "g0",
            "0g",
            "é",
            "0é",
            "é0",
            "+1",
            "-1",
            "0x00",
            "00 00",
            " ",
            "00|",
            "ÿÿ",
        ] {
            edits.push(format!("{a}: {v} | x\n").into_bytes());
        }
    }
    for (bi, b) in base.iter().enumerate() {
        let b = b.as_bytes();
        // the source column is free text: edits are confined to the front columns in the quick tier
        for at in 0..=b.len() {
            let col = at
                - b[..at]
                    .iter()
                    .rposition(|c| *c == b'\n')
                    .map_or(0, |p| p + 1);
            if bi == 0 && !ctx.thorough() && col > 33 {
                continue;
            }
            for &c in &alpha {
                let mut v = b.to_vec();
                v.insert(at, c);
                edits.push(v);
                if at < b.len() {
                    let mut v = b.to_vec();
                    v[at] = c;
                    edits.push(v);
                }
            }
            if at < b.len() {
                let mut v = b.to_vec();
                v.remove(at);
                edits.push(v);
            }
        }
    }
    edits.sort();
    edits.dedup();
    let ne = edits.len();
    ctx.par(ne.div_ceil(64), |ch| {
        let d = Dir::new();
        for v in &edits[ch * 64..((ch + 1) * 64).min(ne)] {
            let txt = String::from_utf8_lossy(v).to_string();
            ctx.begin(|| json!({"listing": txt}));
            d.file("p.yo", v);
            let want = match std::str::from_utf8(v) {
                Err(_) => Some(Err(())),
                Ok(t) => ref_load(t),
            };
            let key = format!("listing:{txt:?}");
            let r = match want {
                Some(Ok(m)) => match yis_expect(&m, 2000) {
                    Some(e) => {
                        yis_compare(&e, &run("yis", &["p.yo"], &d.0, true)).map(|_| "loaded")
                    }
                    None => Ok("skipped"),
                },
                Some(Err(())) => {
                    let o = run("yis", &["p.yo"], &d.0, true);
                    match o.crash() {
                        Some(c) => Err(format!("yis crashes on a malformed listing: {c}")),
                        None if o.code == Some(0) || !o.out.lines().all(is_log) => {
                            Err("yis runs a malformed listing".into())
                        }
                        None => Ok("refused"),
                    }
                }
                None => {
                    let o = run("yis", &["p.yo"], &d.0, false);
                    match o.crash() {
                        Some(c) if !c.contains("without end") => Err(format!("yis crashes: {c}")),
                        _ => Ok("verdict open, no crash"),
                    }
                }
            };
            ctx.end();
            match r {
                Ok(k) => {
                    ctx.add(1, 1, 1);
                    ctx.outcome(&format!("edited listing: {k}"), 1);
                }
                Err(e) => {
                    viol(ctx, format!("{e}: {txt:?}"), key, json!({"listing": txt}));
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C24

/// A batch of snippets as one image, with a halt behind it.
pub fn images(f: &Fam, per: usize, ok: impl Fn(&[I]) -> bool) -> Vec<(Box<Mem>, Vec<String>)> {
    let mut v = vec![];
    let mut b = crate::batch::Batch::new();
    let fin = |b: crate::batch::Batch, v: &mut Vec<(Box<Mem>, Vec<String>)>| {
        if !b.snips.is_empty() {
            v.push((
                b.img,
                b.snips.iter().take(200).flat_map(|x| texts(&x.1)).collect(),
            ));
        }
    };
    for i in 0..f.n {
        let Some(s) = (f.get)(i) else { continue };
        if !ok(&s) {
            continue;
        }
        if b.snips.len() >= per || b.try_add(&s) == crate::batch::Add::Full {
            fin(b, &mut v);
            b = crate::batch::Batch::new();
            b.try_add(&s);
        }
    }
    fin(b, &mut v);
    v
}

/// Programs that end in each possible way, with stores at the word boundaries and at both ends of memory.
fn endings() -> Vec<(String, Mem)> {
    let mut v = vec![];
    let mut add = |name: String, p: Vec<I>, more: Vec<(u64, Vec<u8>)>| {
        let mut im = Image::new(&p);
        for (a, b) in more {
            im = im.with(a, b);
        }
        v.push((name, im.load()));
    };
    for at in [0x100u64, 0x101, 0x107, 0xfff8, 0xfff7, 0x8000, 0xff00] {
        for val in [
            0u64,
            1,
            0xff,
            0x100,
            0xff00_0000_0000_0000,
            0x0123_4567_89ab_cdef,
            u64::MAX,
        ] {
            for old in [0u8, 0xff, 0x01] {
                add(
                    format!("store {val:#x} at {at:#x} over {old:#x}"),
                    vec![ir(val, 0), ir(at, 3), I::St(0, 0, 3), I::Halt],
                    vec![(at & !7, vec![old; if at + 16 > 0x10000 { 8 } else { 16 }])],
                );
            }
        }
    }
    for r in 0..15u8 {
        for val in [1u64, 0xff, 1 << 63, 0x0fed_cba9_8765_4321] {
            add(
                format!("register {r} = {val:#x}"),
                vec![ir(val, r), I::Halt],
                vec![],
            );
        }
    }
    for b in 0..=255u8 {
        add(
            format!("byte {b:#x} after nop"),
            vec![I::Nop, I::Raw(vec![b, 0x12])],
            vec![],
        );
    }
    for a in [
        0xffff_u64,
        0x10000,
        u64::MAX,
        1 << 63,
        0xfff7,
        0xfff8,
        0xfff9,
    ] {
        add(format!("jmp {a:#x}"), vec![I::J(0, T::Abs(a))], vec![]);
        add(
            format!("load {a:#x}"),
            vec![I::Nop, I::Ld(a, 0, 1), I::Halt],
            vec![],
        );
        add(
            format!("store {a:#x}"),
            vec![I::Nop, I::St(0, a, 0), I::Halt],
            vec![],
        );
        for k in [I::Push(0), I::Pop(0), I::Ret, I::Call(T::Abs(0x30))] {
            add(
                format!("stack {a:#x} {k:?}"),
                vec![ir(a, RSP), k, I::Halt],
                vec![(0x30, vec![0x10, 0x00])],
            );
        }
    }
    v
}

pub fn c24(ctx: &Arc<Ctx>) {
    #[cfg(feature = "text")]
    crate::show::places(ctx);
    let mi = mined();
    // --- yis
    let mut jobs: Vec<(String, Box<Mem>, Vec<String>)> = vec![];
    let mut fams = single(&mi, true);
    fams.extend(loops(ctx.pick(12, 40)));
    fams.push(general(2, [RAX, RBX, RSP]));
    for f in &fams {
        for (m, t) in images(f, 1000, |_| true) {
            jobs.push((f.name.to_string(), m, t));
        }
    }
    for (n, m) in endings() {
        jobs.push((n, Box::new(m), vec![]));
    }
    let nj = jobs.len();
    ctx.par(nj.div_ceil(4), |ch| {
        let d = Dir::new();
        for (name, m, t) in &jobs[ch * 4..((ch + 1) * 4).min(nj)] {
            ctx.begin(|| json!({"program": name, "listing": clip(&image_yo(m))}));
            let Some(e) = yis_expect(m, 300_000) else {
                ctx.skipped.fetch_add(1, Relaxed);
                continue;
            };
            d.file("p.yo", image_yo(m));
            let o = run("yis", &["p.yo"], &d.0, true);
            if let Err(x) = yis_compare(&e, &o) {
                viol(
                    ctx,
                    format!("{x} ({name})"),
                    format!("yis:{name}"),
                    json!({"program": name, "instructions": t, "listing": clip(&image_yo(m))}),
                );
                return;
            }
            ctx.add(e.insts + 1, e.insts, 1);
            ctx.outcome(if e.ok { "yis: success" } else { "yis: error" }, 1);
            ctx.end();
        }
    });
    ctx.sample(json!({"yis job": jobs[nj - 3].0}));
    if ctx.stopped() {
        return;
    }
    // --- ysim
    let mut jobs2: Vec<(String, Box<Mem>, Vec<String>)> = vec![];
    let mut fams = single(&mi, false);
    fams.extend(hazards::single_producer());
    fams.extend(hazards::branches(false));
    let mut left = ctx.pick(40, 400);
    for f in &fams {
        for (m, t) in images(f, 250, |_| true)
            .into_iter()
            .take(left.min(ctx.pick(4, 40)))
        {
            jobs2.push((f.name.to_string(), m, t));
        }
        left = left.max(4);
    }
    for (n, m) in endings() {
        if n.starts_with("store") || n.starts_with("register") {
            jobs2.push((n, Box::new(m), vec![]));
        }
    }
    let n2 = jobs2.len();
    ctx.par(n2, |i| {
        let d = Dir::new();
        let (name, m, t) = &jobs2[i];
        d.file("p.ys", image_ys(m));
        for a in ARCHS {
            ctx.begin(|| json!({"program": name, "arch": a, "source": clip(&image_ys(m))}));
            let Ok(e) = ysim_expect(a, m, 100_000) else {
                ctx.skipped.fetch_add(1, Relaxed);
                continue;
            };
            let args: Vec<&str> = if a == "seq_std" && i % 2 == 0 { vec!["p.ys"] } else if i % 3 == 0 { vec!["--arch", a, "p.ys"] } else { vec!["p.ys", "-A", a] };
            let o = run("ysim", &args, &d.0, true);
            if let Err(x) = ysim_compare(a, m, &e, &o) {
                viol(ctx, format!("{x} ({name})"), format!("ysim:{a}:{name}"), json!({"program": name, "arch": a, "instructions": t, "source": clip(&image_ys(m))}));
                return;
            }
            ctx.add(e.cycles.len() as u64 + 1, e.cycles.len() as u64, 1);
            ctx.outcome(&format!("ysim {a}"), 1);
            ctx.end();
        }
    });
    if ctx.stopped() {
        return;
    }
    // --- exit status, files, verbosity
    let good = "irmovq $5, %rax\nirmovq $0x80, %rbx\nrmmovq %rax, (%rbx)\ncall f\nhalt\nf: pushq %rax\npopq %rcx\nret\n".replace("call f", "irmovq $0x200, %rsp\ncall f");
    let bad = [
        "bad 1\n",
        "jmp nowhere\n",
        ".pos 0xffff\n.quad 1\n",
        ".align 3\n",
        "irmovq $99999999999999999999, %rax\n",
        "halt\nhalt halt\n",
        "halt\nx: .quad y\n",
    ];
    let verb: [&[&str]; 8] = [
        &[],
        &["-v"],
        &["-vv"],
        &["-vvv"],
        &["-vvvv"],
        &["-q"],
        &["-qq"],
        &["--verbose"],
    ];
    let names = [
        "p.ys",
        "p",
        "a.b.ys",
        "p.txt",
        "dir/p.ys",
        "./p.ys",
        "dir/../p.ys",
        "dir.d/p",
        "p q.ys",
        ".p",
        "dir.ysx/p.ys",
        "q.ys/p.ys",
        "p.ys.ys",
        "\u{fc}n\u{ef} dir/pr\u{f6} \u{1f980}.ys",
        "quo\"te's #%20.ys",
    ];
    let outs: [Option<&str>; 8] = [
        None,
        Some("o.yo"),
        Some("o"),
        Some("dir/o.x"),
        Some("./o.yo"),
        Some("missing/o.yo"),
        Some("dir"),
        Some("\u{fc}n\u{ef} dir/\u{f6} \"x'.yo"),
    ];
    let srcs: Vec<(&str, bool)> = std::iter::once((good.as_str(), true))
        .chain([("", true), ("# nothing\n", true)])
        .chain(bad.iter().map(|b| (*b, false)))
        .collect();
    let total = names.len() * outs.len() * srcs.len() * verb.len() * 2;
    ctx.par(total, |i| {
        let mut g = Dig(i);
        let (nm, o, (src, ok), vb, pre) = (
            names[g.d(names.len())],
            outs[g.d(outs.len())],
            srcs[g.d(srcs.len())],
            verb[g.d(verb.len())],
            g.d(2),
        );
        if !ctx.thorough()
            && g.0 == 0
            && vb.len() == 1
            && vb[0] != "-vvvv"
            && (nm != "p.ys" || o.is_some())
        {
            return;
        }
        let d = Dir::new();
        for x in ["dir", "dir.d", "dir.ysx", "q.ys", "\u{fc}n\u{ef} dir"] {
            std::fs::create_dir(d.0.join(x)).unwrap();
        }
        std::fs::write(d.0.join(nm), src).unwrap();
        let mut args: Vec<&str> = vb.to_vec();
        args.push(nm);
        if let Some(o) = o {
            args.push(if i % 2 == 0 { "-o" } else { "--output" });
            args.push(o);
        }
        let expect_path = match o {
            Some(o) => PathBuf::from(o),
            None => {
                let mut p = PathBuf::from(nm);
                p.set_extension("yo");
                p
            }
        };
        let old = "previous contents";
        let may_write = o != Some("missing/o.yo") && o != Some("dir");
        if pre == 1 && may_write {
            std::fs::write(d.0.join(&expect_path), old).unwrap();
        }
        let before = tree(&d.0);
        ctx.begin(|| json!({"args": args, "source": src}));
        let r = run("yas", &args, &d.0, true);
        ctx.end();
        let after = tree(&d.0);
        let cs =
            json!({"tool": "yas", "args": args, "source": src, "output file existed": pre == 1});
        let key = format!("yas:{}:{:?}", args.join(" "), src);
        let res = (|| -> Result<&'static str, String> {
            if let Some(c) = r.crash() {
                return Err(format!("yas crashed: {c}"));
            }
            if !ok || !may_write {
                if r.code == Some(0) {
                    return Err("yas exits with 0 although it failed".into());
                }
                if after != before {
                    return Err("a failing yas changed files".into());
                }
                return Ok("failure");
            }
            if r.code != Some(0) {
                return Err(format!("yas fails: {}", r.err.trim()));
            }
            let ann: Vec<&str> = r
                .out
                .lines()
                .filter(|l| !is_log(l))
                .filter_map(|l| l.split('`').nth(1))
                .collect();
            if ann.len() != 1 {
                return Err(format!("yas announces {ann:?}: {:?}", r.out));
            }
            let real = |p: &Path| d.0.join(p).canonicalize().ok();
            // a source without the extension .ys: where its listing goes is left open
            if (o.is_some() || nm.ends_with(".ys"))
                && real(Path::new(ann[0])) != real(&expect_path)
                || real(Path::new(ann[0])).is_none()
            {
                return Err(format!(
                    "yas announces {}, should write {}",
                    ann[0],
                    expect_path.display()
                ));
            }
            let Verdict::Ok(obj) = refasm::assemble(src) else {
                unreachable!()
            };
            let t = std::fs::read_to_string(d.0.join(ann[0])).map_err(|e| e.to_string())?;
            asmc::compare_listing(&t, &obj)?;
            let wrote = real(Path::new(ann[0])).unwrap();
            for (p, c) in &after {
                if p.canonicalize().ok() != Some(wrote.clone()) && before.get(p) != Some(c) {
                    return Err(format!("yas also wrote {}", p.display()));
                }
            }
            Ok("success")
        })();
        match res {
            Ok(k) => {
                ctx.add(1, 1, 1);
                ctx.outcome(&format!("yas: {k}"), 1);
            }
            Err(e) => viol(ctx, e, key, cs),
        }
    });
    if ctx.stopped() {
        return;
    }
    // yis and ysim: verbosity and failure
    let mut jobs3: Vec<(String, Vec<String>, bool)> = vec![]; // source, ysim args, -
    for a in ARCHS {
        jobs3.push((good.clone(), vec!["-A".into(), a.into()], true));
        jobs3.push((
            good.clone(),
            vec!["-A".into(), a.into(), "--max-cpu-cycle".into(), "3".into()],
            false,
        ));
        for b in &bad {
            jobs3.push((b.to_string(), vec!["-A".into(), a.into()], false));
        }
    }
    jobs3.push((good.clone(), vec!["-A".into(), "nosuch".into()], false));
    jobs3.push((good.clone(), vec!["-A".into(), "SEQ_STD".into()], false));
    jobs3.push((good.clone(), vec!["-A".into(), "".into()], false));
    let nv = verb.len();
    ctx.par(jobs3.len(), |i| {
        let (src, args, ok) = &jobs3[i];
        let d = Dir::new();
        d.file("p.ys", src);
        let before = tree(&d.0);
        let mut first: Option<Vec<String>> = None;
        for vb in verb {
            let mut a: Vec<&str> = vb.to_vec();
            a.push("p.ys");
            a.extend(args.iter().map(|s| s.as_str()));
            let o = run("ysim", &a, &d.0, true);
            let cs = json!({"tool": "ysim", "args": a, "source": src});
            let key = format!("ysim:{}:{src:?}", a.join(" "));
            if let Some(c) = o.crash() {
                return viol(ctx, format!("ysim crashed: {c}"), key, cs);
            }
            if (o.code == Some(0)) != *ok {
                return viol(ctx, format!("ysim exits with {:?}", o.code), key, cs);
            }
            if tree(&d.0) != before {
                return viol(ctx, "ysim changed files".into(), key, cs);
            }
            let t: Vec<String> = o
                .out
                .lines()
                .filter(|l| !is_log(l))
                .map(|s| s.to_string())
                .collect();
            match &first {
                None => first = Some(t),
                Some(f) if *f != t => {
                    let g: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
                    return viol(
                        ctx,
                        format!(
                            "verbosity changes the output: {}",
                            first_diff(f, &g).unwrap()
                        ),
                        key,
                        cs,
                    );
                }
                _ => {}
            }
            ctx.add(1, 1, 1);
            ctx.outcome("ysim runs over verbosity options", 1);
        }
    });
    let Verdict::Ok(gobj) = refasm::assemble(&good) else {
        unreachable!()
    };
    let lists: Vec<(String, bool)> = vec![
        (image_yo(&gobj.mem), true),
        ("0x0000: f0 | x\n".into(), false),
        ("zz: 00 | x\n".into(), false),
        ("0x0000: 8000000000000000 | call 0\n".into(), false),
    ];
    ctx.par(lists.len() * nv, |i| {
        let ((l, ok), vb) = (&lists[i / nv], verb[i % nv]);
        let d = Dir::new();
        d.file("p.yo", l);
        let before = tree(&d.0);
        let mut a: Vec<&str> = vb.to_vec();
        a.push("p.yo");
        let o = run("yis", &a, &d.0, true);
        let cs = json!({"tool": "yis", "args": a, "listing": l});
        let key = format!("yis:{}:{l:?}", a.join(" "));
        let r = match ref_load(l).unwrap() {
            Ok(m) => yis_compare(&yis_expect(&m, 1000).unwrap(), &o),
            Err(()) => o.crash().map_or(Ok(()), Err),
        };
        if let Err(e) = r {
            return viol(ctx, e, key, cs);
        }
        if (o.code == Some(0)) != *ok {
            return viol(ctx, format!("yis exits with {:?}", o.code), key, cs);
        }
        if tree(&d.0) != before {
            return viol(ctx, "yis changed files".into(), key, cs);
        }
        ctx.add(1, 1, 1);
        ctx.outcome("yis runs over verbosity options", 1);
    });
    // missing and unreadable input files
    ctx.par(3 * 4, |i| {
        let tool = ["yas", "yis", "ysim"][i % 3];
        let d = Dir::new();
        d.file("latin1.ys", b"halt # \xe9\xff\n");
        std::fs::create_dir(d.0.join("dir")).unwrap();
        let f = ["missing.ys", "dir", "latin1.ys", ""][i / 3];
        let before = tree(&d.0);
        let o = run(tool, &[f], &d.0, true);
        let cs = json!({"tool": tool, "args": [f]});
        if let Some(c) = o.crash() {
            return viol(
                ctx,
                format!("{tool} crashed: {c}"),
                format!("{tool}:{f}"),
                cs,
            );
        }
        if o.code == Some(0) || tree(&d.0) != before {
            return viol(
                ctx,
                format!("{tool} on an unreadable input exits with {:?}", o.code),
                format!("{tool}:{f}"),
                cs,
            );
        }
        ctx.add(1, 1, 1);
        ctx.outcome("unreadable inputs", 1);
    });
}

fn tree(d: &Path) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![d.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                m.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}

// ------------------------------------------------------------------ C23 (command line part)

/// A program with a chosen number of executed instructions.
pub fn counted(k: u64) -> Vec<I> {
    // k >= 1, short straight-line programs up to 12, loops beyond
    if k <= 12 {
        let mut p = vec![I::Nop; k as usize - 1];
        p.push(I::Halt);
        return p;
    }
    // 3 + 2*n (sub, jne) + halt, padded
    let n = (k - 4) / 2;
    let pad = (k - 4) % 2;
    let mut p = vec![ir(n, RBX), ir(1, RCX), I::Nop];
    p.extend(vec![I::Nop; pad as usize]);
    p.extend([I::Lab(0), I::Op(1, RCX, RBX), I::J(4, T::L(0)), I::Halt]);
    p
}

pub fn limit_programs(thorough: bool) -> Vec<(String, Vec<I>)> {
    let mut v: Vec<(String, Vec<I>)> = (1..=if thorough { 40 } else { 16 })
        .map(|k| (format!("{k} instructions"), counted(k)))
        .collect();
    for k in [100u64, 1000] {
        v.push((format!("{k} instructions"), counted(k)));
    }
    let inf: Vec<(&str, Vec<I>)> = vec![
        ("jmp self", vec![I::Lab(0), I::J(0, T::L(0))]),
        ("loop of two", vec![I::Lab(0), I::Nop, I::J(0, T::L(0))]),
        (
            "conditional loop",
            vec![I::Op(3, 0, 0), I::Lab(0), I::J(3, T::L(0)), I::Halt],
        ),
        (
            "call self",
            vec![I::Lab(0), ir(0x200, RSP), I::Call(T::L(0))],
        ),
        (
            "ret to self",
            vec![
                I::Lab(0),
                ir(0x200, RSP),
                ir(0, RAX),
                I::St(0, 0, RSP),
                I::Ret,
            ],
        ),
        (
            "store loop",
            vec![
                ir(0x300, RBX),
                I::Lab(0),
                I::St(RBX, 0, RBX),
                I::Ld(0, RBX, RCX),
                I::Op(0, RCX, RDX),
                I::J(0, T::L(0)),
            ],
        ),
    ];
    v.extend(inf.into_iter().map(|(n, p)| (n.to_string(), p)));
    for (n, p) in [
        ("invalid code", vec![I::Nop, I::Raw(vec![0xf0])]),
        (
            "bad address",
            vec![I::Nop, I::Ld(0x10000, 0, 1), I::Nop, I::Nop],
        ),
        ("jump out", vec![I::J(0, T::Abs(0x10000))]),
        (
            "load/use",
            vec![
                ir(0x100, RBX),
                I::Ld(0, RBX, RCX),
                I::Op(0, RCX, RDX),
                I::Halt,
            ],
        ),
        (
            "mispredicted",
            vec![
                I::Op(3, 0, 0),
                I::J(4, T::L(0)),
                I::Nop,
                I::Halt,
                I::Lab(0),
                I::Nop,
                I::Halt,
            ],
        ),
        (
            "call and ret",
            vec![ir(0x200, RSP), I::Call(T::L(0)), I::Halt, I::Lab(0), I::Ret],
        ),
    ] {
        v.push((n.to_string(), p));
    }
    v
}

/// Cycles until the architecture stops, by the reference model (faults: by the simulator itself, None if never).
pub fn cycles_to_stop(arch: &str, m: &Mem, max: u64) -> Option<u64> {
    let rr = ref_run(m, max, false);
    if rr.last.stat == Stat::Aok {
        return None;
    }
    if arch != "pipe_std" {
        return Some(rr.last.n);
    }
    if rr.last.stat == Stat::Hlt {
        return Some(rr.cost);
    }
    let mut s = new_sim(arch, m);
    for k in 1..=max {
        s.sim.step();
        if s.sim.is_terminate() {
            return Some(k);
        }
    }
    None
}

pub fn c23_cli(ctx: &Arc<Ctx>) {
    let progs = limit_programs(ctx.thorough());
    let mut jobs: Vec<(String, &'static str, Option<u64>, Option<u64>, Box<Mem>)> = vec![];
    for (name, p) in &progs {
        let m = Image::new(p).load();
        for a in ARCHS {
            let t = cycles_to_stop(a, &m, 20_000);
            let mut ns: Vec<u64> = (0..8).collect();
            match t {
                Some(t) => ns.extend([
                    t.saturating_sub(2),
                    t - 1,
                    t,
                    t + 1,
                    t + 2,
                    2 * t,
                    1_000_000,
                    u64::MAX,
                    i64::MAX as u64,
                    1 << 32,
                ]),
                None => ns.extend([10, 99, 100, 4096]),
            }
            ns.sort();
            ns.dedup();
            for n in ns {
                jobs.push((name.clone(), a, t, Some(n), Box::new(m)));
            }
        }
    }
    // the default limit
    for (k, a) in [
        (99_999u64, "seq_std"),
        (100_000, "seq_std"),
        (100_001, "seq_std"),
        (100_000, "seq_plus_std"),
        (100_001, "seq_plus_std"),
    ] {
        jobs.push((
            format!("{k} instructions"),
            a,
            Some(k),
            None,
            Box::new(Image::new(&counted(k)).load()),
        ));
    }
    jobs.push((
        "jmp self".into(),
        "pipe_std",
        None,
        None,
        Box::new(Image::new(&[I::Lab(0), I::J(0, T::L(0))]).load()),
    ));
    ctx.par(jobs.len(), |i| {
        let (name, a, t, n, m) = &jobs[i];
        let d = Dir::new();
        d.file("p.ys", image_ys(m));
        let ns = n.map(|n| n.to_string());
        let mut args = vec!["p.ys", "-A", a];
        if let Some(n) = &ns {
            args.extend(["--max-cpu-cycle", n]);
        }
        let lim = n.unwrap_or(100_000);
        ctx.begin(|| json!({"program": name, "args": args}));
        let o = run("ysim", &args, &d.0, true);
        ctx.end();
        let want = t.is_some_and(|t| t <= lim);
        let cyc = o
            .out
            .lines()
            .filter(|l| l.starts_with('=') && l.contains(" [Cycle "))
            .count() as u64;
        let e = if let Some(c) = o.crash() {
            Some(format!("ysim crashed: {c}"))
        } else if (o.code == Some(0)) != want {
            Some(format!(
                "ysim exits with {:?} although the program {} and the limit is {lim}",
                o.code,
                t.map_or("never stops".to_string(), |t| format!("stops in cycle {t}"))
            ))
        } else if !want && (cyc < lim.min(t.unwrap_or(u64::MAX)) || cyc > lim.saturating_add(1)) {
            Some(format!(
                "ysim was cut off after {cyc} cycles, the limit is {lim}"
            ))
        } else if !want && o.err.trim().is_empty() {
            Some("ysim fails without an error message".into())
        } else {
            None
        };
        match e {
            Some(e) => viol(
                ctx,
                format!("{e} ({name} on {a})"),
                format!("ysim:{a}:{name}:{lim}"),
                json!({"program": name, "arch": a, "args": args, "source": image_ys(m)}),
            ),
            None => {
                ctx.add(cyc + 1, cyc, 1);
                ctx.outcome(
                    if want {
                        "ysim: finished within the limit"
                    } else {
                        "ysim: cut off"
                    },
                    1,
                );
            }
        }
    });
    ctx.sample(json!({"program": jobs[30].0, "arch": jobs[30].1, "stops in cycle": jobs[30].2, "limit": jobs[30].3}));
}
