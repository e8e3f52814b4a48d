//! C28: what is printed about a processor is its structure and its state.
use crate::arch::*;
use crate::circuit::strip_ansi;
use crate::cli::{bin, is_log, run, Dir, Out};
use crate::common::*;
use crate::prog::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use y86_sim::framework::PropOrder;

/// Nodes (with: is it a unit) and links of a dependency graph. Ports are written with `-`.
#[derive(Debug, PartialEq, Eq)]
pub struct Graph {
    nodes: BTreeMap<String, bool>,
    links: BTreeSet<(String, String)>,
}

impl Graph {
    pub fn new(alone: &[String], links: &[(String, String)], units: &[&str]) -> Graph {
        let f = |s: &String| s.replace('.', "-");
        Graph {
            nodes: alone
                .iter()
                .chain(links.iter().flat_map(|l| [&l.0, &l.1]))
                .map(|n| (f(n), units.contains(&n.as_str())))
                .collect(),
            links: links.iter().map(|l| (f(&l.0), f(&l.1))).collect(),
        }
    }
    /// `got` has the style of a node in place of its kind.
    pub fn compare(&self, got: &Drawn) -> Result<(), String> {
        if let Some((n, _)) = got.nodes.iter().find(|(n, _)| !self.nodes.contains_key(*n)) {
            return Err(format!("the dependency graph has a node {n}, which does not exist"));
        }
        if let Some((n, _)) = self.nodes.iter().find(|(n, _)| !got.nodes.contains_key(*n)) {
            return Err(format!("the dependency graph has no node {n}"));
        }
        if let Some(l) = got.links.iter().find(|l| !self.links.contains(*l)) {
            return Err(format!("the dependency graph links {} to {}, there is no such dependency", l.0, l.1));
        }
        if let Some(l) = self.links.iter().find(|l| !got.links.contains(*l)) {
            return Err(format!("the dependency graph does not link {} to {}", l.0, l.1));
        }
        let style = |unit: bool| -> BTreeSet<&String> {
            self.nodes
                .iter()
                .filter(|n| *n.1 == unit)
                .map(|n| &got.nodes[n.0])
                .collect()
        };
        let (u, s) = (style(true), style(false));
        if u.intersection(&s).next().is_some() || u.len() > 1 || s.len() > 1 {
            return Err("the dependency graph does not tell units and signals apart".into());
        }
        Ok(())
    }
}

#[derive(Debug)]
pub struct Drawn {
    nodes: BTreeMap<String, String>,
    links: BTreeSet<(String, String)>,
}

/// The data of a dependency graph file.
fn parse_html(t: &str) -> Result<Drawn, String> {
    let i = t.find("\"series\"").ok_or("no chart in the file")?;
    let a = t[..i].rfind('{').ok_or("no chart in the file")?;
    let v: Value = serde_json::Deserializer::from_str(&t[a..])
        .into_iter()
        .next()
        .ok_or("no chart in the file")?
        .map_err(|e| format!("the chart cannot be read: {e}"))?;
    let s = match &v["series"] {
        Value::Array(a) if a.len() == 1 => &a[0],
        v => v,
    };
    let mut d = Drawn {
        nodes: Default::default(),
        links: Default::default(),
    };
    for n in s["data"].as_array().into_iter().flatten() {
        let name = n["name"].as_str().ok_or("a node has no name")?.to_string();
        if d.nodes.insert(name.clone(), n["itemStyle"].to_string()).is_some() {
            return Err(format!("the dependency graph has two nodes {name}"));
        }
    }
    for l in s["links"].as_array().into_iter().flatten() {
        let k = (
            l["source"].as_str().unwrap_or("").to_string(),
            l["target"].as_str().unwrap_or("").to_string(),
        );
        if !d.links.insert(k.clone()) {
            return Err(format!("the dependency graph links {} to {} twice", k.0, k.1));
        }
    }
    Ok(d)
}

pub fn graph(dir: &Dir, o: &PropOrder) -> Result<Drawn, String> {
    let p = dir.0.join("x");
    let name = p.to_str().unwrap();
    match guard(|| y86_sim::utils::render_arch_dependency_graph(name, o)) {
        Ok(Ok(())) => {}
        e => return Err(format!("the dependency graph is not written: {e:?}")),
    }
    let f = format!("{name}_dependency_graph.html");
    let t = std::fs::read_to_string(&f).map_err(|e| format!("the dependency graph is not at {f}: {e}"))?;
    std::fs::remove_file(&f).ok();
    parse_html(&t)
}

/// In a listing units are printed in another style than signals.
pub fn listing(raw: &str, units: &[&str]) -> Result<(), String> {
    let mut styles: [BTreeSet<String>; 2] = Default::default();
    for l in raw.lines() {
        if !strip_ansi(l).trim_start().starts_with("lv.") {
            continue;
        }
        let Some((_, names)) = l.split_once(':') else { continue };
        for w in names.split(' ').filter(|w| !w.is_empty()) {
            let plain = strip_ansi(w);
            let Some(k) = w.find(&plain) else {
                return Err(format!("unreadable listing {raw:?}"));
            };
            styles[units.contains(&plain.as_str()) as usize].insert(w[..k].to_string());
        }
    }
    if styles[0].intersection(&styles[1]).next().is_some() {
        return Err("the listing does not tell units and signals apart".into());
    }
    Ok(())
}

/// Titles with their signals: (title, [(name, value)]).
type Info = Vec<(String, Vec<(String, String)>)>;

#[cfg(y86_verif)]
mod hooked {
    use super::*;
    use crate::hclc::accepted;
    use crate::refhcl::{ports, Hcl};
    use y86_sim::architectures::verif;
    use y86_sim::framework::MemData;

    pub fn archs(ctx: &Arc<Ctx>) {
        let names: Vec<_> = verif::NAMES.iter().filter(|a| accepted(a.0)).collect();
        ctx.par(names.len(), |j| {
            let (name, hw, stages, text) = *names[j];
            let bad = |t: String| ctx.violation(Viol::new(format!("architecture {name}: {t}"), format!("{name}: {t}"), json!({"architecture": name, "text": text})));
            ctx.begin(|| json!({"architecture": name, "text": text}));
            let h = Hcl::parse(text, stages);
            let dir = Dir::new();
            let mut shown = None;
            let r = guard(|| {
                let s = verif::create(name, MemData::init([0; 1 << 16]), &mut |o| {
                    shown = Some((o.to_string(), graph(&dir, o)));
                });
                s.unwrap().get_stage_info()
            });
            let Ok(info) = r else { return };
            let (list, drawn) = shown.unwrap();
            // one dependency per use
            let units = ports(hw);
            let unames: Vec<&str> = units.iter().map(|u| u.0).collect();
            let mut links: Vec<(String, String)> = vec![];
            for (u, i, o) in &units {
                links.extend(i.iter().map(|p| (format!("{u}.{p}"), u.to_string())));
                links.extend(o.iter().map(|p| (u.to_string(), format!("{u}.{p}"))));
            }
            let mut alone: Vec<String> = unames.iter().map(|s| s.to_string()).collect();
            for (i, s) in h.signals.iter().enumerate() {
                alone.push(s.name.clone());
                let (a, b) = h.uses(i);
                links.extend(a.into_iter().map(|k| (h.signals[k].name.clone(), s.name.clone())));
                links.extend(b.into_iter().map(|(u, p)| (format!("{u}.{p}"), s.name.clone())));
                links.extend(s.units.iter().map(|(u, p)| (s.name.clone(), format!("{u}.{p}"))));
            }
            let g = Graph::new(&alone, &links, &unames);
            if let Err(e) = drawn.and_then(|d| g.compare(&d)).and_then(|_| listing(&list, &unames)) {
                return bad(e);
            }
            // titles and their signals
            let mut want: Vec<(Option<String>, Vec<&str>)> = h.parts.iter().map(|p| (Some(p.clone()), vec![])).collect();
            if want.is_empty() {
                want.push((None, vec![]));
            }
            let mut early = vec![];
            for s in &h.signals {
                if s.early && !h.parts.is_empty() {
                    early.push(s.name.as_str());
                } else {
                    want[s.part].1.push(&s.name);
                }
            }
            let mut got: Vec<(&str, Vec<&str>)> = info.iter().map(|s| (s.name, s.signals.iter().map(|x| x.0.as_str()).collect())).collect();
            // signals in front of the first title: shown once, with the first title or apart
            let mut seen: Vec<&str> = vec![];
            for g in got.iter_mut() {
                g.1.retain(|n| {
                    let e = early.contains(n);
                    if e {
                        seen.push(n);
                    }
                    !e
                });
            }
            if got.len() == want.len() + 1 && got[0].1.is_empty() && !early.is_empty() {
                got.remove(0);
            }
            if seen != early {
                return bad(format!("the signals in front of the first title are {early:?}, shown are {seen:?}"));
            }
            if got.len() != want.len() {
                return bad(format!("{} titles are shown, should be {}", got.len(), want.len()));
            }
            for (g, w) in got.iter().zip(&want) {
                if w.0.as_ref().is_some_and(|t| t != g.0) {
                    return bad(format!("the title {:?} is shown as {:?}", w.0, g.0));
                }
                if g.1 != w.1 {
                    return bad(format!("under the title {:?} the signals {:?} are shown, should be {:?}", g.0, g.1, w.1));
                }
            }
            ctx.end();
            ctx.add(1, alone.len() as u64 + links.len() as u64, 1);
            ctx.outcome("architectures shown", 1);
        });
    }
}

/// `ysim -I`: listing and graph of a compiled architecture.
fn info(ctx: &Arc<Ctx>) {
    let mut jobs: Vec<(&str, Vec<String>)> = vec![];
    for a in y86_sim::architectures::arch_names() {
        let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        for args in [s(&["-A", a, "-I"]), s(&["--info", "--arch", a]), s(&["p.ys", "-I", "-A", a]), s(&["-I", "-A", a, "-vv"]), s(&["-q", "-A", a, "-I"])] {
            jobs.push((a, args));
        }
        if a == "seq_std" {
            jobs.push((a, s(&["-I"])));
            jobs.push((a, s(&["p.ys", "--info"])));
        }
    }
    ctx.par(jobs.len(), |j| {
        let (a, args) = &jobs[j];
        let bad = |t: String| ctx.violation(Viol::new(format!("ysim {}: {t}", args.join(" ")), format!("info {a}: {t}"), json!({"arguments": args})));
        let dir = Dir::new();
        dir.file("p.ys", "irmovq $1, %rax\nhalt\n");
        let scratch = Dir::new();
        let sim = new_sim(a, &[0; 1 << 16]);
        let o = sim.sim.proporder();
        let av: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let (r, raw) = run_raw("ysim", &av, &dir);
        if let Some(c) = r.crash() {
            return bad(c);
        }
        if r.code != Some(0) {
            return bad(format!("exit status {:?}: {}", r.code, r.err.trim()));
        }
        let list = |t: &str| -> Vec<String> {
            strip_ansi(t)
                .lines()
                .map(|l| l.trim().to_string())
                .filter(|l| l.starts_with("lv."))
                .collect()
        };
        let want = o.to_string();
        if list(&raw) != list(&want) || list(&raw).is_empty() {
            return bad(format!("the listing is {:?}, should be {:?}", list(&raw), list(&want)));
        }
        let file = format!("{a}_dependency_graph.html");
        if dir.list() != [file.clone(), "p.ys".to_string()] && dir.list() != ["p.ys".to_string(), file.clone()] {
            return bad(format!("the directory contains {:?} afterwards, should be {file} and p.ys", dir.list()));
        }
        if !r.out.contains(&file) {
            return bad(format!("the path {file} of the graph is not announced"));
        }
        if r.out.contains("Cycle") || r.out.contains("PC =") {
            return bad("the program is run although only information is asked for".into());
        }
        let d = std::fs::read_to_string(dir.0.join(&file)).map_err(|e| e.to_string()).and_then(|t| parse_html(&t));
        let d = match (d, graph(&scratch, o)) {
            (Ok(d), Ok(w)) => {
                if d.nodes != w.nodes || d.links != w.links {
                    return bad("the graph differs from that of the architecture".into());
                }
                d
            }
            (Err(e), _) | (_, Err(e)) => return bad(e),
        };
        // listing and graph agree: the items of the listing are the nodes without port, units have another style
        let names: BTreeSet<String> = list(&want).iter().flat_map(|l| l.split_once(':').unwrap().1.split_whitespace().map(String::from).collect::<Vec<_>>()).collect();
        let nodes: BTreeSet<String> = d.nodes.keys().filter(|n| !n.contains('-')).cloned().collect();
        if names != nodes {
            return bad(format!("listing {names:?} and graph {nodes:?} differ"));
        }
        let units: BTreeSet<&str> = d.links.iter().flat_map(|(x, y)| [x, y]).filter_map(|n| n.split_once('-').map(|u| u.0)).collect();
        let g = Graph {
            nodes: d.nodes.keys().map(|n| (n.clone(), units.contains(n.as_str()))).collect(),
            links: d.links.clone(),
        };
        let units: Vec<&str> = units.into_iter().collect();
        if let Err(e) = g.compare(&d).and_then(|_| listing(&raw, &units)) {
            return bad(e);
        }
        ctx.add(1, d.links.len() as u64, 1);
        ctx.outcome(&format!("ysim -I {a}"), 1);
    });
}

/// `ysim -I` where the graph cannot be written, and where there is one already.
pub fn places(ctx: &Arc<Ctx>) {
    let archs = y86_sim::architectures::arch_names();
    ctx.par(archs.len() * 4, |i| {
        let (a, k) = (archs[i / 4], i % 4);
        let file = format!("{a}_dependency_graph.html");
        let dir = Dir::new();
        let what = match k {
            0 => {
                std::fs::create_dir(dir.0.join(&file)).expect("scratch directory");
                "a directory has the graph's name"
            }
            1 => {
                std::os::unix::fs::symlink("nowhere/nothing.html", dir.0.join(&file)).expect("scratch link");
                "the graph's name is a link into a missing directory"
            }
            2 => {
                dir.file(&file, "old ".repeat(1 << 20));
                "there is a larger graph already"
            }
            _ => {
                dir.file(&file, "");
                "there is an empty graph already"
            }
        };
        let r = run("ysim", &["-A", a, "-I"], &dir.0, true);
        let bad = |t: String| ctx.violation(Viol::new(format!("ysim -A {a} -I, {what}: {t}"), format!("info {a}: {what}"), json!({"arch": a, "what": what})));
        if let Some(c) = r.crash() {
            return bad(c);
        }
        if (r.code == Some(0)) != (k >= 2) {
            return bad(format!("exit status {:?}: {}", r.code, r.err.trim()));
        }
        if k >= 2 {
            let d = std::fs::read_to_string(dir.0.join(&file)).map_err(|e| e.to_string()).and_then(|t| parse_html(&t).map(|d| (t.contains("old old"), d)));
            match d {
                Ok((false, d)) if !d.nodes.is_empty() => {}
                Ok(_) => return bad("the old contents are still there".into()),
                Err(e) => return bad(e),
            }
        }
        ctx.add(1, 1, 1);
    });
    ctx.outcome("places of the graph", 4);
}

fn run_raw(name: &str, args: &[&str], dir: &Dir) -> (Out, String) {
    let o = std::process::Command::new(bin(name))
        .args(args)
        .current_dir(&dir.0)
        .stdin(std::process::Stdio::null())
        .env_remove("RUST_LOG")
        .output()
        .expect("ysim");
    let raw = String::from_utf8_lossy(&o.stdout).into_owned();
    use std::os::unix::process::ExitStatusExt;
    (
        Out {
            code: o.status.code(),
            sig: o.status.signal(),
            out: strip_ansi(&raw),
            err: strip_ansi(&String::from_utf8_lossy(&o.stderr)),
        },
        raw,
    )
}

/// What a stage of the pipeline holds: status and instruction.
type Held = (String, String);

/// The table printed for pipe_std in one cycle: D, E, M, W; f's instruction; what happens to F, D, E, M, W.
#[derive(Clone, Debug)]
struct Table {
    held: [Held; 4],
    fetched: String,
    ctl: [&'static str; 5],
    /// stall and bubble at once: left open
    open: bool,
}

const CODE: [&str; 13] = ["HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ", "POPQ", "IOPQ"];

fn code(v: &str) -> String {
    let n = v.strip_prefix("0x").and_then(|h| usize::from_str_radix(h, 16).ok());
    n.and_then(|n| CODE.get(n)).map_or("?".into(), |s| s.to_string())
}

pub struct Run {
    /// condition codes at the end of each cycle, cost, signals under their titles
    cc: Vec<Option<String>>,
    /// signals of the table were not found
    pub reduced: bool,
    cost: u64,
    info: Vec<Info>,
    tables: Vec<Table>,
}

/// What has to be printed, from the same program driven in this process and a model of which instruction each
/// pipeline register holds.
pub fn expect(arch: &str, m: &[u8; 1 << 16], max: usize) -> Result<Option<Run>, String> {
    let s = new_sim(arch, m);
    let (mut sim, mem) = (s.sim, s.mem);
    let mut r = Run {
        cc: vec![],
        reduced: false,
        cost: sim.cycle_cost(),
        info: vec![],
        tables: vec![],
    };
    let bub = || ("Bub".to_string(), "NOP".to_string());
    let mut held = [bub(), bub(), bub(), bub()];
    loop {
        if r.info.len() >= max {
            return Ok(None);
        }
        if !r.info.is_empty() {
            sim.initiate_next_cycle();
        }
        sim.propagate_signals();
        let info: Info = sim.get_stage_info().into_iter().map(|x| (x.name.to_string(), x.signals)).collect();
        let get = |n: &str| {
            info.iter()
                .flat_map(|x| &x.1)
                .find(|x| x.0 == n)
                .map(|x| x.1.clone())
        };
        r.cc.push(
            find_cc(info.iter().flat_map(|x| &x.1)).map(|cc| format!("sf {} of {} zf {}", cc.sf, cc.of, cc.zf)),
        );
        // (a tree on which the signals have other names: the table is not compared)
        let mut table = || -> Option<Table> {
            let mut ctl = [""; 5];
            let mut open = false;
            for (k, st) in ["f", "d", "e", "m", "w"].iter().enumerate() {
                let b = get(&format!("{st}_bubble"))? == "true";
                let s = get(&format!("{st}_stall"))? == "true";
                open |= b && s;
                ctl[k] = match (b, s) {
                    (true, _) => "Bubble",
                    (_, true) => "Stall",
                    _ => "Normal",
                };
            }
            let ficode = code(&get("f_icode")?);
            let t = Table {
                held: held.clone(),
                fetched: ficode.clone(),
                ctl,
                open,
            };
            let input = [
                (get("f_stat")?, ficode),
                held[0].clone(),
                held[1].clone(),
                (get("m_stat")?, held[2].1.clone()),
            ];
            for k in 0..4 {
                match ctl[k + 1] {
                    "Bubble" => held[k] = bub(),
                    "Normal" => held[k] = input[k].clone(),
                    _ => {}
                }
            }
            Some(t)
        };
        if arch == "pipe_std" {
            match table() {
                Some(t) => r.tables.push(t),
                None => r.reduced = true,
            }
        }
        r.info.push(info);
        if sim.is_terminate() {
            drop(mem);
            return Ok(Some(r));
        }
    }
}

/// `F aok D bub` ... into its entries
fn entries(l: &str) -> Vec<String> {
    l.split_whitespace().skip(1).map(String::from).collect()
}

pub fn compare(arch: &str, e: &Run, o: &Out) -> Result<(), String> {
    if let Some(c) = o.crash() {
        return Err(c);
    }
    if o.code != Some(0) {
        return Err(format!("exit status {:?}", o.code));
    }
    // cycles and costs
    let (mut head, mut cc, mut tab) = (vec![], vec![], vec![vec![]; 3]);
    for l in o.out.lines().filter(|l| !is_log(l)) {
        if l.starts_with('=') && l.contains("[Cycle ") {
            head.push(l.trim_matches(|c| c == '=' || c == ' ').to_string());
        } else if l.starts_with("sf ") {
            cc.push(l.split_whitespace().collect::<Vec<_>>().join(" "));
        }
        for (k, p) in ["Stat ", "icode ", "Control "].iter().enumerate() {
            if l.starts_with(p) {
                tab[k].push(entries(l));
            }
        }
    }
    let n = e.info.len();
    if head.len() != n || cc.len() != n {
        return Err(format!("{} cycles and {} condition codes are printed; the run has {n} cycles", head.len(), cc.len()));
    }
    for i in 0..n {
        let w = format!("[Cycle {} (*{})]", i + 1, e.cost);
        if head[i] != w {
            return Err(format!("cycle {} is headed {:?}, should be {w:?}", i + 1, head[i]));
        }
        if let Some(w) = e.cc[i].as_ref().filter(|w| **w != cc[i]) {
            return Err(format!("in cycle {} the condition codes are printed as {:?}, should be {w:?}", i + 1, cc[i]));
        }
    }
    if arch == "pipe_std" && !e.reduced {
        if tab.iter().any(|t| t.len() != n) {
            return Err(format!("the pipeline table is printed {:?} times; the run has {n} cycles", tab.iter().map(|t| t.len()).collect::<Vec<_>>()));
        }
        for (i, t) in e.tables.iter().enumerate() {
            if t.open {
                break;
            }
            let pair = |v: &[String]| -> BTreeMap<String, String> { v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect() };
            // undefined codes are printed as "no name"
            let ic: Vec<String> = tab[1][i].iter().filter(|w| *w != "name").map(|w| if w == "no" { "?".into() } else { w.clone() }).collect();
            let (st, ic, ct) = (pair(&tab[0][i]), pair(&ic), pair(&tab[2][i]));
            for (k, s) in ["D", "E", "M", "W"].iter().enumerate() {
                if !st.get(*s).is_some_and(|x| x.eq_ignore_ascii_case(&t.held[k].0)) {
                    return Err(format!("in cycle {} the status in {s} is printed as {:?}, should be {}", i + 1, st.get(*s), t.held[k].0));
                }
                if ic.get(*s) != Some(&t.held[k].1) {
                    return Err(format!("in cycle {} the instruction in {s} is printed as {:?}, should be {}", i + 1, ic.get(*s), t.held[k].1));
                }
            }
            if ic.get("f") != Some(&t.fetched) {
                return Err(format!("in cycle {} the fetched instruction is printed as {:?}, should be {}", i + 1, ic.get("f"), t.fetched));
            }
            for (k, s) in ["F", "D", "E", "M", "W"].iter().enumerate() {
                if ct.get(*s).map(|x| x.as_str()) != Some(t.ctl[k]) {
                    return Err(format!("in cycle {} the control of {s} is printed as {:?}, should be {}", i + 1, ct.get(*s), t.ctl[k]));
                }
            }
        }
    }
    Ok(())
}

/// The signals printed with -v.
fn compare_signals(e: &Run, o: &Out) -> Result<(), String> {
    let mut want: Vec<String> = vec![];
    for c in &e.info {
        for (t, sigs) in c {
            want.push(format!("--- {t} ---"));
            for (n, v) in sigs {
                want.push(format!("{n} = {v}"));
            }
        }
    }
    let text = if o.out.lines().any(|l| l.trim_start().starts_with("INFO ")) { &o.out } else { &o.err };
    let mut got: Vec<String> = vec![];
    for l in text.lines() {
        let Some(l) = l.trim_start().strip_prefix("INFO ") else { continue };
        let l = l.trim();
        if l.starts_with("---") {
            got.push(format!("--- {} ---", l.trim_matches(|c| c == '-' || c == ' ')));
        } else if let Some((n, v)) = l.split_once(" = ") {
            // units log other things
            if n.trim().contains(|c: char| !(c.is_alphanumeric() || c == '_')) {
                continue;
            }
            got.push(format!("{} = {v}", n.trim()));
        }
    }
    match want.iter().zip(&got).position(|(a, b)| a != b) {
        Some(i) => Err(format!("with -v {:?} is printed, should be {:?} (line {} of signals and titles)", got[i], want[i], i + 1)),
        None if want.len() != got.len() => Err(format!("with -v {} lines of signals and titles are printed, should be {}", got.len(), want.len())),
        None => Ok(()),
    }
}

/// Values are shown in full.
fn values(ctx: &Arc<Ctx>) {
    let (consts, text) = crate::dbg::wide();
    let dir = Dir::new();
    dir.file("p.ys", &text);
    for a in ARCHS {
        let crate::refasm::Verdict::Ok(m) = crate::refasm::assemble(&text) else { return };
        let o = run("ysim", &["-A", a, "-v", "p.ys"], &dir.0, true);
        let check = || -> Result<u64, String> {
            let e = expect(a, &m.mem, 3000)?.ok_or("the program does not end")?;
            compare(a, &e, &o)?;
            compare_signals(&e, &o)?;
            let mut s = new_sim(a, &m.mem);
            let mut cycles = vec![];
            for i in &e.info {
                s.sim.propagate_signals();
                cycles.push((s.sim.program_counter(), crate::dbg::shown(i.iter().flat_map(|x| &x.1).map(|x| x.1.as_str()))));
                s.sim.initiate_next_cycle();
            }
            crate::dbg::shows(a, &consts, &cycles)?;
            Ok(cycles.len() as u64)
        };
        match guard(check).unwrap_or_else(Err) {
            Ok(n) => ctx.add(n, 2 * n, 1),
            Err(t) => return ctx.violation(Viol::new(format!("{a}: {t}"), format!("values {a}"), json!({"arch": a, "source": text}))),
        }
    }
}

fn traces(ctx: &Arc<Ctx>) {
    let mut progs = crate::order::programs(ctx.thorough());
    progs.extend(crate::order::self_modifying());
    ctx.par(progs.len() * 3, |j| {
        let (a, p) = (ARCHS[j % 3], &progs[j / 3]);
        let m = p.load();
        ctx.begin(|| json!({"arch": a, "program": p.json()}));
        let bad = |t: String| ctx.violation(Viol::new(format!("{a}: {t}"), format!("trace {a}: {}", t.split(" is ").next().unwrap_or("")), json!({"arch": a, "source": crate::cli::image_ys(&m)})));
        let e = match guard(|| expect(a, &m, 3000)) {
            Ok(Ok(Some(e))) => e,
            Ok(Err(t)) => return bad(t),
            _ => {
                ctx.skipped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                return ctx.end();
            }
        };
        let dir = Dir::new();
        dir.file("p.ys", crate::cli::image_ys(&m));
        let o = run("ysim", &["-A", a, "p.ys"], &dir.0, true);
        if let Err(t) = compare(a, &e, &o) {
            return bad(t);
        }
        let v = ["-v", "-vv", "-vvv"][j / 3 % 3];
        let o = run("ysim", &["-A", a, v, "p.ys"], &dir.0, true);
        if let Err(t) = compare(a, &e, &o).and_then(|_| compare_signals(&e, &o)) {
            return bad(format!("{t} ({v})"));
        }
        ctx.end();
        let n = e.info.len() as u64;
        ctx.add(n, 2 * n, 2);
        ctx.outcome(&format!("runs printed, {a}{}", if e.reduced { " (without the table)" } else { "" }), 1);
    });
}

pub fn c28(ctx: &Arc<Ctx>) {
    ctx.hang_secs.store(120, std::sync::atomic::Ordering::Relaxed);
    silenced(|| crate::circuit::c28(ctx));
    #[cfg(y86_verif)]
    if !ctx.stopped() {
        silenced(|| hooked::archs(ctx));
    }
    #[cfg(not(y86_verif))]
    ctx.note("reduced", json!("the hook does not compile on this tree: no generated architectures"));
    if !ctx.stopped() {
        silenced(|| {
            places(ctx);
            info(ctx)
        });
    }
    if !ctx.stopped() {
        silenced(|| values(ctx));
    }
    if !ctx.stopped() {
        traces(ctx);
    }
    ctx.assume("signals in front of the first title may be shown with the first title or apart; the status printed for F is open; while stall and bubble of a register hold at once its table entry is open");
}
