//! C19 (answers), C20 (breakpoints and stepping), C21 (display), C22 (concurrent sessions), C23 (limit of continue).
use crate::arch::*;
use crate::cli::{limit_programs, Dir};
use crate::common::*;
use crate::dbg::*;
use crate::fam;
use crate::hazards;
use crate::prog::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

pub fn source_of(p: &[I]) -> String {
    let mut s = String::new();
    for i in p {
        match i {
            I::Raw(b) => {
                for x in b {
                    s += &format!("    .byte {x:#x}\n");
                }
            }
            I::J(_, T::Abs(a)) | I::Call(T::Abs(a)) => {
                // the language has no numbers as targets
                let op = if let I::J(c, _) = i { 0x70 | c } else { 0x80 };
                s += &format!("    .byte {op:#x}\n    .quad {a:#x}\n");
            }
            I::Lab(_) => s += &format!("{}\n", i.text()),
            _ => s += &format!("    {}\n", i.text()),
        }
    }
    s
}

const LOOP: &str = "# a loop over an array\n    .pos 0\nmain:\n    irmovq array, %rbx  # base\n    irmovq $2, %rcx\n    irmovq $1, %rdx\n    irmovq $8, %rsi\nloop:\n    mrmovq (%rbx), %rdi\n    addq %rdi, %rax\n    addq %rsi, %rbx\n    subq %rdx, %rcx\n    jne loop\n\n    halt\n    .align 8\narray:\n    .quad 0x0d\n    .quad 0xc0\n";
const STRAIGHT: &str =
    "irmovq $5, %rax\nnop\na:\nb:\nc:\nirmovq $-1, %rsp\n# comment only\nnop\nd: halt\n";
const FAULT: &str = "irmovq $7, %rax\nirmovq $0x10000, %rbx\nrmmovq %rax, (%rbx)\nnop\nhalt\n.pos 0x10000\nfar:\n  .pos 0x7fffffffffffffff\n.pos 0x8000000000000001\nneg:\n.pos 0xffffffffffffffff\ntop:\n";
const FAR: &str = "  irmovq $3, %rax\n  irmovq $3, %rbx\n  subq %rax, %rbx\n  jne neg\n  jmp far\n  .pos 0x10000\nfar:\n.pos 0x8000000000000001\nneg:\n";
const NEG: &str = "  jmp neg\n  halt\n  .pos 0x8000000000000001\nneg:\nneg2:\n  .pos 0x1\none:\n";
const SPIN: &str = "  irmovq $1, %rax\nspin:\n  addq %rax, %rbx\n  jmp spin\n  halt\n";
const CALLS: &str = "  irmovq stack, %rsp\n  call f\n  call f\n  halt\nf:\n  pushq %rbp\n  rrmovq %rsp, %rbp\n  popq %rbp\n  ret\n  .pos 0x200\nstack:\n";
const DATA: &str =
    "  jmp there\n  halt\n  .pos 0x100\nthere:\n  .byte 0x10\n  .byte 0x10\n  .byte 0x00\n";
const NOLINE: &str = "  irmovq $0x400, %rax\n  irmovq $0x800, %rsp\n  pushq %rax\n  ret\n  nop\n";
const EMPTY: &str = "";
const BADINS: &str = "  nop\n  .byte 0xf0\n  halt\n";
const OVERLAY: &str = "a:\n  .pos 0x10\nlow:\n  nop\n  nop\n  .pos 0\nb:\n  irmovq $3, %rax\n  jmp low\n  .pos 0x12\nx:\n\n  .align 16\ny:\n  halt\n  .pos 0x12\n  jmp y\n";

fn programs(dir: &Dir) -> Vec<Arc<Prog>> {
    [
        ("loop.ys", LOOP),
        ("straight.ys", STRAIGHT),
        ("spin.ys", SPIN),
        ("fault.ys", FAULT),
        ("calls.ys", CALLS),
        ("data.ys", DATA),
        ("noline.ys", NOLINE),
        ("empty.ys", EMPTY),
        ("badins.ys", BADINS),
        ("overlay.ys", OVERLAY),
        ("far.ys", FAR),
        ("neg.ys", NEG),
        ("zero.ys", ""),
        ("blank.ys", "\n  \t\n\n"),
        ("lone.ys", "only:"),
        ("zeros.ys", "    .pos 0xfff8\n    .quad 1"),
    ]
    .iter()
    .map(|(n, t)| Arc::new(Prog::new(dir, n, t)))
    .collect()
}

fn world(
    ctx: &Ctx,
    arch: &str,
    max: u64,
    dir: &Dir,
    ps: &[Arc<Prog>],
    slack: usize,
) -> Option<World> {
    match World::new(arch, max, dir, ps, slack + 20) {
        Ok(w) => Some(w),
        Err(e) => {
            ctx.violation(Viol::new(
                format!("{arch}: a first session fails: {e}"),
                "first-session",
                json!({"arch": arch, "max_cpu_cycle": max}),
            ));
            None
        }
    }
}

/// Requests that must be refused whatever the state of the session.
fn refused(w: &World, bad: &BTreeMap<&str, String>) -> Vec<Req> {
    let r = &w.srv.refs;
    let f = |n: &str, cmd: &str, a: Value| rq(n, cmd, Some(a), K::Fail);
    let (p0, t) = (&w.progs[0].0.path, r.thread);
    let maxref = r.vars.iter().max().unwrap_or(&1) + 1;
    let mut v = vec![
        f("initialize again", "initialize", json!({"adapterID": "x"})),
        f("launch without program", "launch", json!({})),
        f(
            "launch a missing file",
            "launch",
            json!({"program": bad["missing"]}),
        ),
        f(
            "launch a file that does not assemble",
            "launch",
            json!({"program": bad["syntax"]}),
        ),
        f(
            "launch a file with an undefined label",
            "launch",
            json!({"program": bad["label"]}),
        ),
        f(
            "launch a directory",
            "launch",
            json!({"program": bad["dir"]}),
        ),
        f(
            "launch a file that is not text",
            "launch",
            json!({"program": bad["binary"]}),
        ),
        f(
            "launch: program is a number",
            "launch",
            json!({"program": 7}),
        ),
        f("launch: program is empty", "launch", json!({"program": ""})),
        f(
            "setBreakpoints on another file",
            "setBreakpoints",
            json!({"source": {"path": bad["missing"]}, "breakpoints": [{"line": 1}]}),
        ),
        f(
            "setBreakpoints without path",
            "setBreakpoints",
            json!({"source": {}, "breakpoints": [{"line": 1}]}),
        ),
        f(
            "setBreakpoints without breakpoints",
            "setBreakpoints",
            json!({"source": {"path": p0}}),
        ),
        f(
            "setExceptionBreakpoints with filter",
            "setExceptionBreakpoints",
            json!({"filters": ["all"]}),
        ),
        f("next, wrong thread", "next", json!({"threadId": t + 1})),
        f(
            "continue, wrong thread",
            "continue",
            json!({"threadId": t - 1}),
        ),
        f(
            "stackTrace, wrong thread",
            "stackTrace",
            json!({"threadId": t + 1}),
        ),
        f(
            "scopes, wrong frame",
            "scopes",
            json!({"frameId": r.frame + 1}),
        ),
        f(
            "variables, reference 0",
            "variables",
            json!({"variablesReference": 0}),
        ),
        f(
            "variables, reference -1",
            "variables",
            json!({"variablesReference": -1}),
        ),
        f(
            "variables, reference past the last",
            "variables",
            json!({"variablesReference": maxref}),
        ),
        f(
            "variables, largest reference",
            "variables",
            json!({"variablesReference": i64::MAX}),
        ),
        f(
            "variables, least reference",
            "variables",
            json!({"variablesReference": i64::MIN}),
        ),
    ];
    for (c, a) in unsupported() {
        v.push(rq(c, c, a, K::Fail));
    }
    v
}

fn unsupported() -> Vec<(&'static str, Option<Value>)> {
    vec![
        ("attach", Some(json!({}))),
        (
            "breakpointLocations",
            Some(json!({"source": {}, "line": 1})),
        ),
        ("completions", Some(json!({"text": "x", "column": 1}))),
        ("dataBreakpointInfo", Some(json!({"name": "x"}))),
        (
            "disassemble",
            Some(json!({"memoryReference": "0", "instructionCount": 1})),
        ),
        ("evaluate", Some(json!({"expression": "1"}))),
        ("exceptionInfo", Some(json!({"threadId": 1}))),
        ("goto", Some(json!({"threadId": 1, "targetId": 1}))),
        ("gotoTargets", Some(json!({"source": {}, "line": 1}))),
        ("loadedSources", None),
        ("modules", Some(json!({}))),
        ("pause", Some(json!({"threadId": 1}))),
        (
            "readMemory",
            Some(json!({"memoryReference": "0", "count": 1})),
        ),
        ("restart", Some(json!({}))),
        ("restartFrame", Some(json!({"frameId": 1}))),
        ("reverseContinue", Some(json!({"threadId": 1}))),
        ("setDataBreakpoints", Some(json!({"breakpoints": []}))),
        (
            "setExpression",
            Some(json!({"expression": "a", "value": "1"})),
        ),
        ("setFunctionBreakpoints", Some(json!({"breakpoints": []}))),
        (
            "setInstructionBreakpoints",
            Some(json!({"breakpoints": []})),
        ),
        (
            "setVariable",
            Some(json!({"variablesReference": 1, "name": "RAX", "value": "1"})),
        ),
        ("source", Some(json!({"sourceReference": 1}))),
        ("stepBack", Some(json!({"threadId": 1}))),
        ("stepIn", Some(json!({"threadId": 1}))),
        ("stepInTargets", Some(json!({"frameId": 1}))),
        ("stepOut", Some(json!({"threadId": 1}))),
        ("terminate", Some(json!({}))),
        ("terminateThreads", Some(json!({}))),
        (
            "writeMemory",
            Some(json!({"memoryReference": "0", "data": ""})),
        ),
        ("cancel", Some(json!({}))),
    ]
}

fn bad_files(dir: &Dir) -> BTreeMap<&'static str, String> {
    let p = |n: &str, t: &[u8]| dir.file(n, t).display().to_string();
    BTreeMap::from([
        ("missing", dir.0.join("nothing.ys").display().to_string()),
        ("dir", dir.0.display().to_string()),
        ("syntax", p("syntax.ys", b"nop\n  frobnicate %rax\n")),
        ("label", p("label.ys", b"jmp nowhere\n")),
        ("binary", p("binary.ys", &[0xff, 0xfe, 0x00, 0x80])),
    ])
}

/// All requests with an effect or a state-dependent answer.
fn meaningful(w: &World) -> Vec<Req> {
    let r = &w.srv.refs;
    let mut v = vec![
        w.launch(0),
        w.launch(2),
        w.launch(3),
        w.done(),
        w.next(),
        w.cont(),
        w.bps(0, &[9, 1, 14]),
        w.bps(0, &[]),
        w.bps(0, &[0, -1, 3, 4, 100, i64::MAX, i64::MIN, 8]),
        w.bps(2, &[3]),
        w.bps(3, &[3, 6, 7, 8, 9, 10, 11, 12]),
        w.threads(),
        w.stack(),
        rq(
            "stackTrace(startFrame 1)",
            "stackTrace",
            Some(json!({"threadId": r.thread, "startFrame": 1, "levels": 20})),
            K::StackRest,
        ),
        rq(
            "stackTrace(levels 20)",
            "stackTrace",
            Some(json!({"threadId": r.thread, "startFrame": 0, "levels": 20})),
            K::Stack,
        ),
        w.scopes(),
        rq(
            "setExceptionBreakpoints([])",
            "setExceptionBreakpoints",
            Some(json!({"filters": []})),
            K::Noop,
        ),
        w.disconnect(),
    ];
    for i in 0..r.vars.len() {
        v.push(w.vars(i));
    }
    v
}

/// The same requests spelled in other ways: optional arguments that change nothing.
fn spelled(w: &World) -> Vec<Req> {
    let r = &w.srv.refs;
    let t = r.thread;
    let mut v = vec![];
    let mut f = |cmd: &str, a: Option<Value>, k: K| {
        let name = format!("{cmd} {}", a.as_ref().map_or("without arguments".into(), |a| a.to_string()));
        v.push(rq(&name, cmd, a, k));
    };
    for x in [
        json!({"granularity": "statement"}),
        json!({"granularity": "line"}),
        json!({"granularity": "instruction"}),
        json!({"singleThread": true}),
        json!({"singleThread": false, "granularity": "instruction"}),
        json!({"granularity": null, "singleThread": null}),
        json!({"note": [1, {"a": null}]}),
    ] {
        let mut x = x;
        x["threadId"] = json!(t);
        f("next", Some(x.clone()), K::Next);
        if x.get("granularity").is_none() {
            f("continue", Some(x), K::Continue);
        }
    }
    for x in [
        json!({"levels": 0}),
        json!({"levels": 1}),
        json!({"levels": 1, "startFrame": 0}),
        json!({"startFrame": null, "levels": null, "format": null}),
        json!({"startFrame": 0, "levels": 1000}),
        json!({"format": {"parameters": true, "line": true, "hex": true}}),
        json!({"format": {}}),
    ] {
        let mut x = x;
        x["threadId"] = json!(t);
        f("stackTrace", Some(x), K::Stack);
    }
    for x in [json!({"startFrame": 1}), json!({"startFrame": 1, "levels": 0}), json!({"startFrame": 1000, "levels": 1})] {
        let mut x = x;
        x["threadId"] = json!(t);
        f("stackTrace", Some(x), K::StackRest);
    }
    f("scopes", Some(json!({"frameId": r.frame, "note": 1})), K::Scopes);
    for i in 0..r.vars.len() {
        for x in [json!({"filter": "named"}), json!({"start": 0, "count": 0}), json!({"start": null, "count": null, "filter": null, "format": null}), json!({"format": {"hex": true}})] {
            let mut x = x;
            x["variablesReference"] = json!(r.vars[i]);
            f("variables", Some(x), K::Vars(i));
        }
    }
    f("threads", Some(Value::Null), K::Threads);
    f("configurationDone", Some(Value::Null), K::ConfDone);
    f("setExceptionBreakpoints", Some(json!({"filters": [], "filterOptions": null, "exceptionOptions": null})), K::Noop);
    for p in [0, 2] {
        let path = &w.progs[p].0.path;
        let name = &w.progs[p].0.name;
        for x in [
            json!({"name": "y86", "type": "y86", "request": "launch", "stopOnEntry": true, "__sessionId": "a-b", "args": []}),
            json!({"noDebug": false, "__restart": null}),
            json!({"__restart": {"x": 1}}),
        ] {
            let mut x = x;
            x["program"] = json!(path);
            f("launch", Some(x), K::Launch(p));
        }
        let lines: Vec<i64> = if p == 0 { vec![9, 1, 14] } else { vec![3] };
        for (k, each) in [
            json!({}),
            json!({"column": 1}),
            json!({"column": 40}),
            json!({"condition": "1 == 0"}),
            json!({"hitCondition": "3"}),
            json!({"logMessage": "here"}),
            json!({"column": null, "condition": null, "hitCondition": null, "logMessage": null, "mode": "x"}),
        ]
        .into_iter()
        .enumerate()
        {
            let bps: Vec<Value> = lines
                .iter()
                .map(|l| {
                    let mut b = each.clone();
                    b["line"] = json!(l);
                    b
                })
                .collect();
            let source = match k {
                0 => json!({"path": path, "name": name}),
                1 => json!({"path": path, "name": "another name"}),
                2 => json!({"path": path, "sourceReference": 0}),
                3 => json!({"path": path, "name": null, "origin": "x", "presentationHint": "normal"}),
                4 => json!({"path": path, "sources": [], "checksums": []}),
                _ => json!({"path": path}),
            };
            let mut x = json!({"source": source, "breakpoints": bps});
            match k % 3 {
                0 => x["lines"] = json!(lines),
                1 => x["sourceModified"] = json!(false),
                _ => x["lines"] = json!([]),
            }
            f("setBreakpoints", Some(x), K::Bps(p, lines.clone()));
        }
    }
    for p in 0..w.progs.len() {
        f("launch", Some(json!({"program": w.progs[p].0.path})), K::Launch(p));
    }
    for x in [
        Some(json!({"restart": false, "terminateDebuggee": true})),
        Some(json!({"restart": true})),
        Some(json!({"suspendDebuggee": true, "terminateDebuggee": false})),
        Some(json!({"restart": null})),
    ] {
        f("disconnect", x, K::Disconnect);
    }
    v
}

/// Every spelling, premature and in several states of a session, and what the session does afterwards.
fn spellings(ctx: &Arc<Ctx>, w: &World) {
    let forms = spelled(w);
    let pre: Vec<Vec<Req>> = vec![
        vec![],
        vec![w.launch(0)],
        vec![w.launch(0), w.done(), w.bps(0, &[9, 1, 14]), w.next()],
        vec![w.launch(2), w.bps(2, &[3]), w.next(), w.next()],
        vec![w.launch(0), w.cont()],
    ];
    ctx.par(pre.len() * forms.len(), |i| {
        let (p, f) = (&pre[i % pre.len()], &forms[i / pre.len()]);
        for after in [vec![w.cont()], vec![w.next(), w.cont(), w.next()], vec![f.clone(), w.cont()]] {
            let mut reqs = p.clone();
            reqs.push(f.clone());
            reqs.extend(after);
            if run(ctx, w, "spelling", &reqs, true).is_none() {
                return;
            }
        }
    });
    ctx.outcome("spellings of requests", forms.len() as u64);
}

/// Programs whose paths are written in unusual ways: breakpoints, stops and sources name them as launched.
fn paths(ctx: &Arc<Ctx>) {
    let dir = Dir::new();
    let long = format!("{}.ys", "n".repeat(200));
    let mut ps = vec![];
    for p in [
        "two words/pro gram.ys",
        "\u{fc}n\u{ef}/pr\u{f6}gr\u{e4}m \u{1f980}.ys",
        "quo\"te's\\back.ys",
        "tab\there.ys",
        "per%20cent#hash?.ys",
        "noextension",
        ".hidden",
        "a.b.c.d",
        "-dash.ys",
        " lead.ys",
        "trail.ys ",
        "UPPER.YS",
        "x/../dots.ys",
        "./here.ys",
        "x//y///slashes.ys",
        "d1/d2/d3/d4/d5/d6/deep.ys",
        "program.txt",
        long.as_str(),
    ] {
        for absolute in [true, false] {
            ps.push(Arc::new(Prog::spelled(&dir, p, absolute, LOOP)));
        }
    }
    // through symbolic links
    std::fs::create_dir(dir.0.join("other")).expect("scratch directory");
    let calls = Prog::spelled(&dir, "other/calls.ys", true, CALLS);
    for (link, to) in [("link.ys", calls.path.as_str()), ("linkdir", "other")] {
        std::os::unix::fs::symlink(to, dir.0.join(link)).expect("scratch link");
    }
    for p in ["link.ys", "linkdir/calls.ys"] {
        for absolute in [true, false] {
            ps.push(Arc::new(Prog::spelled(&dir, p, absolute, CALLS)));
        }
    }
    let np = ps.len();
    for arch in ARCHS {
        let Some(w) = world(ctx, arch, 25, &dir, &ps, 60) else {
            return;
        };
        ctx.par(np * 2, |i| {
            let p = i / 2;
            let n = w.progs[p].0.lines.len() as i64;
            let all: Vec<i64> = (0..=n + 1).collect();
            let mut reqs = vec![w.launch(p), w.stack(), w.scopes(), w.bps(p, &all), w.done(), w.cont(), w.stack(), w.next(), w.bps(p, &[n]), w.cont()];
            if i % 2 == 1 {
                // and another program before it
                let q = (p + 2) % np;
                reqs.splice(0..0, [w.launch(q), w.bps(q, &[1, 3]), w.cont()]);
            }
            run(ctx, &w, "path", &reqs, true);
        });
    }
    ctx.outcome("paths of programs", np as u64);
}

/// One session: requests, then what the model predicts about everything observable.
fn run(ctx: &Ctx, w: &World, key: &str, reqs: &[Req], probe: bool) -> Option<Sess> {
    if ctx.stopped() {
        return None;
    }
    ctx.begin(|| json!({"arch": w.srv.arch, "requests": reqs.iter().map(|r| r.name.clone()).collect::<Vec<_>>()}));
    let r = (|| {
        let (mut c, mut s) = w.fresh()?;
        for r in reqs {
            w.exec(&mut c, &mut s, r)?;
            if s.over {
                return Ok(s);
            }
        }
        let at = s.clone();
        if probe {
            for r in w.observers() {
                w.exec(&mut c, &mut s, &r)
                    .map_err(|e| format!("afterwards: {e}"))?;
            }
        }
        w.exec(&mut c, &mut s, &w.disconnect())
            .map_err(|e| format!("at the end: {e}"))?;
        Ok(at)
    })();
    ctx.end();
    match r {
        Ok(s) => {
            ctx.add(0, reqs.len() as u64, 1);
            Some(s)
        }
        Err(e) => {
            w.violation(ctx, key, reqs, e);
            None
        }
    }
}

/// All states of the session model reachable within `depth` requests; in each, every request of the alphabet.
fn bfs(ctx: &Arc<Ctx>, w: &World, key: &str, moves: &[Req], others: &[Req], depth: usize) -> usize {
    let seen: Mutex<HashSet<St>> = Mutex::new(HashSet::from([St::default()]));
    let mut frontier: Vec<Vec<Req>> = vec![vec![]];
    let mut total = 1;
    for d in 0..=depth {
        let next: Mutex<Vec<Vec<Req>>> = Mutex::new(vec![]);
        let per = moves.len() + others.len();
        let _ = d;
        ctx.par(frontier.len() * per, |i| {
            let (f, j) = (i / per, i % per);
            let mut path = frontier[f].clone();
            path.push(if j < moves.len() {
                moves[j].clone()
            } else {
                others[j - moves.len()].clone()
            });
            if let Some(s) = run(ctx, w, key, &path, true) {
                if !s.over && seen.lock().unwrap().insert(s.st.clone()) {
                    next.lock().unwrap().push(path);
                }
            }
        });
        let mut n = next.into_inner().unwrap();
        n.sort_by_key(|p| p.iter().map(|r| r.name.clone()).collect::<Vec<_>>());
        total += n.len();
        if n.is_empty() || ctx.stopped() {
            break;
        }
        frontier = n;
    }
    ctx.add(total as u64, 0, 0);
    total
}

pub fn c19(ctx: &Arc<Ctx>) {
    let dir = Dir::new();
    let ps = programs(&dir);
    let bad = bad_files(&dir);
    for arch in ARCHS {
        let Some(w) = world(ctx, arch, 12, &dir, &ps, 60) else {
            return;
        };
        let mean = meaningful(&w);
        let refd = refused(&w, &bad);
        let mut all = mean.clone();
        all.extend(refd.iter().cloned());
        ctx.note(
            &format!("requests of the alphabet ({arch})"),
            json!(all.len()),
        );

        // every state of the session model x every request
        let moves: Vec<Req> = mean.iter().take(11).cloned().collect();
        let others: Vec<Req> = all.iter().skip(11).cloned().collect();
        let n = bfs(
            ctx,
            &w,
            "session-state",
            &moves,
            &others,
            if arch == "seq_std" {
                ctx.pick(3, 6)
            } else {
                ctx.pick(2, 4)
            },
        );
        ctx.note(&format!("reachable session states ({arch})"), json!(n));
        if ctx.stopped() {
            return;
        }

        // all sequences over the whole alphabet
        let len = if arch == "seq_std" { ctx.pick(2, 3) } else { 2 };
        let na = all.len();
        ctx.par(na.pow(len), |i| {
            let mut d = fam::Dig(i);
            let reqs: Vec<Req> = (0..len).map(|_| all[d.d(na)].clone()).collect();
            run(ctx, &w, "sequence", &reqs, true);
        });
        ctx.outcome("sequences over all requests", na.pow(len) as u64);
        // all sequences over the requests with effects, in a launched session
        let eff: Vec<Req> = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12]
            .iter()
            .map(|i| mean[*i].clone())
            .chain([
                refd[1].clone(),
                refd[3].clone(),
                refd[9].clone(),
                refd[13].clone(),
            ])
            .collect();
        let (ne, len) = (
            eff.len(),
            if arch == "seq_std" { ctx.pick(4, 5) } else { 3 },
        );
        ctx.par(ne.pow(len), |i| {
            let mut d = fam::Dig(i);
            let mut reqs: Vec<Req> = (0..len).map(|_| eff[d.d(ne)].clone()).collect();
            reqs.push(w.stack());
            run(ctx, &w, "sequence", &reqs, false);
        });
        ctx.outcome(
            "sequences over the requests with effects",
            ne.pow(len) as u64,
        );
        if ctx.stopped() {
            return;
        }

        spellings(ctx, &w);
        if ctx.stopped() {
            return;
        }

        // requests sent without waiting for answers: all sequences, in one piece
        let pool: Vec<Req> = mean
            .iter()
            .cloned()
            .chain(
                [1usize, 2, 3, 9, 13, 18, 22, 30]
                    .iter()
                    .map(|i| refd[*i].clone()),
            )
            .collect();
        let (np, len) = (
            pool.len(),
            if arch == "seq_std" { ctx.pick(3, 4) } else { 2 },
        );
        ctx.par(np.pow(len), |i| {
            let mut d = fam::Dig(i);
            let reqs: Vec<Req> = [w.launch(0)]
                .into_iter()
                .chain((0..len).map(|_| pool[d.d(np)].clone()))
                .collect();
            burst(ctx, &w, &reqs, &[], |k| k as i64 + 1);
        });
        ctx.outcome("sequences sent in one piece", np.pow(len) as u64);

        // the same bytes in two pieces, cut everywhere; and byte by byte
        let reqs = vec![
            w.launch(0),
            w.bps(0, &[9]),
            w.done(),
            w.cont(),
            refd[18].clone(),
            w.next(),
            w.stack(),
        ];
        let total: usize = burst_bytes(&reqs, |k| k as i64 + 1).len();
        ctx.par(total, |i| {
            burst(ctx, &w, &reqs, &[i], |k| k as i64 + 1);
        });
        let cuts: Vec<usize> = (0..total).collect();
        burst(ctx, &w, &reqs, &cuts, |k| k as i64 + 1);
        ctx.outcome("ways to cut the byte stream", total as u64 + 1);

        // any sequence numbers of the client
        let nums: [i64; 7] = [0, 1, -1, 7, i64::MAX, i64::MIN, 1 << 40];
        let reqs = vec![
            w.launch(0),
            w.done(),
            w.next(),
            refd[9].clone(),
            w.threads(),
        ];
        let n = nums.len();
        ctx.par(n.pow(3) * n, |i| {
            let mut d = fam::Dig(i);
            let s: Vec<i64> = (0..4).map(|_| nums[d.d(n)]).collect();
            burst(ctx, &w, &reqs, &[], |k| s[k % 4]);
        });
        ctx.outcome("sequence numbers of the client", n.pow(4) as u64);
        if ctx.stopped() {
            return;
        }
        // long sessions
        for len in [100usize, 400] {
            let cyc: Vec<Req> = vec![
                w.next(),
                refd[3].clone(),
                w.stack(),
                w.vars(0),
                w.bps(0, &[9, 10]),
                w.cont(),
                refd[13].clone(),
                w.launch(0),
                w.done(),
            ];
            let reqs: Vec<Req> = [w.launch(0)]
                .into_iter()
                .chain((0..len).map(|i| cyc[i % cyc.len()].clone()))
                .collect();
            run(ctx, &w, "long-session", &reqs, true);
        }
        // a client that goes away: every prefix of a session, closed or reset, then a new session
        let reqs = vec![w.launch(0), w.bps(0, &[9]), w.done(), w.cont(), w.next()];
        let bytes = burst_bytes(&reqs, |k| k as i64 + 1);
        ctx.par(bytes.len() * 2, |i| {
            let r = (|| {
                let mut c = Client::connect(w.srv.port)?;
                c.raw(&bytes[..i / 2])?;
                if i % 2 == 0 {
                    c.shutdown_write();
                    // everything complete is answered, then the connection ends
                    while c.recv()?.is_some() {}
                } else {
                    c.reset();
                }
                Ok::<(), String>(())
            })();
            if let Err(e) = r {
                w.violation(
                    ctx,
                    "closed-connection",
                    &reqs,
                    format!("client closes after {} bytes: {e}", i / 2),
                );
            }
            ctx.add(0, 1, 1);
        });
        run(
            ctx,
            &w,
            "closed-connection",
            &[w.launch(0), w.done(), w.cont()],
            true,
        );
        ctx.outcome("points where the client goes away", bytes.len() as u64 * 2);
        if arch == "seq_std" {
            ctx.sample(json!({"alphabet": all.iter().map(|r| r.name.clone()).collect::<Vec<_>>()}));
        }
    }
    ctx.assume("a request is well-formed if it decodes as a request of the Debug Adapter Protocol (known command, arguments of the declared types)");
}

fn burst_bytes(reqs: &[Req], num: impl Fn(usize) -> i64) -> Vec<u8> {
    let mut b = Client::encode(num(0), "initialize", &Some(json!({"adapterID": "y86"})));
    for (k, r) in reqs.iter().enumerate() {
        b.extend(Client::encode(num(k + 1), &r.cmd, &r.args));
    }
    b
}

/// Send everything at once (cut at the given positions), then check all answers.
fn burst(ctx: &Ctx, w: &World, reqs: &[Req], cuts: &[usize], num: impl Fn(usize) -> i64) {
    if ctx.stopped() {
        return;
    }
    ctx.begin(|| json!({"arch": w.srv.arch, "in one piece": reqs.iter().map(|r| r.name.clone()).collect::<Vec<_>>()}));
    let r = (|| {
        let bytes = burst_bytes(reqs, &num);
        let mut c = Client::connect(w.srv.port)?;
        let mut at = 0;
        for &x in cuts {
            if x > at {
                c.raw(&bytes[at..x])?;
                at = x;
                if cuts.len() < 10 {
                    std::thread::sleep(std::time::Duration::from_micros(300));
                } else {
                    std::thread::yield_now();
                }
            }
        }
        // with a disconnect inside, the rest may not be accepted any more
        let sent = c.raw(&bytes[at..]);
        if !reqs.iter().any(|r| r.k == K::Disconnect) {
            sent?;
        }
        let mut s = Sess::default();
        c.initialized(num(0))?;
        for (k, r) in reqs.iter().enumerate() {
            w.answer(&mut c, &mut s, r, num(k + 1))
                .map_err(|e| format!("{}: {e}", r.name))?;
            if s.over {
                return Ok(());
            }
        }
        w.exec(&mut c, &mut s, &w.disconnect())
    })();
    ctx.end();
    match r {
        Ok(()) => ctx.add(0, reqs.len() as u64, 1),
        Err(e) => w.violation(
            ctx,
            "burst",
            reqs,
            format!(
                "sent in one piece{}: {e}",
                if cuts.is_empty() {
                    String::new()
                } else {
                    format!(" cut at {:?}", &cuts[..cuts.len().min(3)])
                }
            ),
        ),
    }
}

// ------------------------------------------------------------------ C20

pub fn c20(ctx: &Arc<Ctx>) {
    paths(ctx);
    let dir = Dir::new();
    let ps = programs(&dir);
    for arch in ARCHS {
        for max in [25u64, 3, 50_000] {
            let slack = 80;
            let sel: Vec<Arc<Prog>> = if max == 50_000 {
                ps.iter().filter(|p| p.name != "spin.ys").cloned().collect()
            } else {
                ps.clone()
            };
            let Some(w) = world(ctx, arch, max, &dir, &sel, slack) else {
                return;
            };
            if max == 25 {
                spellings(ctx, &w);
            }
            // every set of at most two lines (all lines for one more), from every cycle of the program
            let mut jobs: Vec<(usize, Vec<i64>, usize)> = vec![];
            for (p, (pr, t)) in w.progs.iter().enumerate() {
                let n = pr.lines.len() as i64;
                let starts = t.pcs.len().min(ctx.pick(12, 40));
                let mut sets: Vec<Vec<i64>> =
                    vec![vec![], (0..=n + 1).collect(), (0..=n + 1).rev().collect()];
                for a in 0..=n + 1 {
                    sets.push(vec![a]);
                    for b in 0..=n + 1 {
                        sets.push(vec![a, b]);
                    }
                }
                for s in sets {
                    for k in 0..starts {
                        if s.len() == 2 && k > ctx.pick(2, 8) || max == 3 && s.len() == 2 {
                            continue;
                        }
                        jobs.push((p, s.clone(), k));
                    }
                }
            }
            ctx.par(jobs.len(), |i| {
                let (p, s, k) = &jobs[i];
                let mut reqs = vec![w.launch(*p), w.done()];
                reqs.extend((0..*k).map(|_| w.next()));
                reqs.push(w.bps(*p, s));
                reqs.extend([
                    w.cont(),
                    w.stack(),
                    w.cont(),
                    w.cont(),
                    w.next(),
                    w.cont(),
                    w.stack(),
                ]);
                run(ctx, &w, "breakpoints", &reqs, false);
            });
            ctx.outcome(
                &format!("breakpoint sets x starting cycles, limit {max}"),
                jobs.len() as u64,
            );
            if ctx.stopped() {
                return;
            }
            // a refused request between setting a breakpoint and running changes nothing
            let bad = bad_files(&dir);
            let no = refused(&w, &bad);
            let mut jobs: Vec<(usize, i64, usize, usize)> = vec![];
            for p in 0..w.progs.len() {
                for l in 1..=w.progs[p].0.lines.len() as i64 {
                    for r in 0..no.len() {
                        // the first request of each command also in the middle of a run
                        for at in 0..ctx.pick(2, 4) {
                            if max != 3 && (ctx.thorough() || (l as usize + r + p) % 3 == 0 || r < 12) {
                                jobs.push((p, l, r, at));
                            }
                        }
                    }
                }
            }
            ctx.par(jobs.len(), |i| {
                let (p, l, r, at) = jobs[i];
                let mut reqs = vec![w.launch(p)];
                reqs.extend((0..at).map(|_| w.next()));
                reqs.extend([w.bps(p, &[l]), no[r].clone(), w.cont(), w.stack(), no[r].clone(), w.cont(), w.next()]);
                run(ctx, &w, "refused", &reqs, false);
            });
            ctx.outcome("breakpoint x refused request x cycle", jobs.len() as u64);
            if ctx.stopped() {
                return;
            }
            // all sequences of stepping, continuing and replacing breakpoints
            let len = ctx.pick(if max == 25 { 5 } else { 4 }, if max == 25 { 7 } else { 6 });
            for p in 0..w.progs.len().min(ctx.pick(5, 10)) {
                let (pr, t) = &w.progs[p];
                // two lines that are reached, if there are
                let reached: BTreeSet<u64> = t.pcs.iter().map(|x| x.0).collect();
                let hit: Vec<i64> = (0..pr.lines.len())
                    .filter(|i| pr.lines[*i].is_some_and(|a| reached.contains(&a)))
                    .map(|i| i as i64 + 1)
                    .collect();
                let (a, b) = (*hit.get(1).unwrap_or(&1), *hit.last().unwrap_or(&1));
                let al = [
                    w.next(),
                    w.cont(),
                    w.bps(p, &[a]),
                    w.bps(p, &[b, a]),
                    w.bps(p, &[]),
                    w.launch(p),
                ];
                let n = al.len();
                ctx.par(n.pow(len), |i| {
                    let mut d = fam::Dig(i);
                    let mut reqs = vec![w.launch(p)];
                    reqs.extend((0..len).map(|_| al[d.d(n)].clone()));
                    reqs.push(w.cont());
                    run(ctx, &w, "stepping", &reqs, false);
                });
                ctx.outcome(
                    "sequences of next, continue, setBreakpoints, launch",
                    n.pow(len) as u64,
                );
            }
            let st: usize = w.progs.iter().map(|p| p.1.pcs.len()).sum();
            ctx.add(st as u64, 0, 0);
            if ctx.stopped() {
                return;
            }
        }
        generated(ctx, arch, "breakpoint-generated", |w, p| {
            // a breakpoint on each line, continue to the end, one step more; and step by step
            let (pr, t) = &w.progs[p];
            let mut v = vec![];
            let all: Vec<i64> = (1..=pr.lines.len() as i64).collect();
            let mut reqs = vec![w.launch(p), w.bps(p, &all), w.done()];
            reqs.extend((0..t.pcs.len() + 1).map(|_| w.cont()));
            v.push(reqs);
            for l in &all {
                v.push(vec![
                    w.launch(p),
                    w.bps(p, &[*l]),
                    w.done(),
                    w.cont(),
                    w.cont(),
                    w.cont(),
                ]);
            }
            let mut reqs = vec![w.launch(p), w.done()];
            reqs.extend((0..t.pcs.len() + 1).map(|_| w.next()));
            v.push(reqs);
            v
        });
        if ctx.stopped() {
            return;
        }
    }
    far(ctx, "breakpoint-far", false);
    ctx.assume("when several reasons to stop fall in the same cycle, any of them may be reported");
    ctx.assume("breakpoints set before a program is launched again may be kept or dropped");
}

/// Sessions over generated programs, in groups that share a server.
fn generated(
    ctx: &Arc<Ctx>,
    arch: &str,
    key: &str,
    sessions: impl Fn(&World, usize) -> Vec<Vec<Req>> + Sync,
) {
    let mut fams: Vec<fam::Fam> = vec![];
    fams.extend(hazards::branches(false));
    fams.extend(hazards::returns(false));
    fams.extend(fam::loops(6));
    fams.push(fam::general(2, [RAX, RBX, 1]));
    fams.extend(hazards::single_producer());
    let mut list: Vec<String> = vec![];
    for f in &fams {
        let cap = ctx.pick(12, 120);
        // evenly spaced members of the family: a bounded sub-family, fixed in advance
        let stride = (f.n / cap).max(1);
        let mut i = 0;
        while i < f.n {
            if let Some(p) = (f.get)(i) {
                if p.len() <= 40 && !p.iter().any(|x| matches!(x, I::Iop(..))) {
                    let mut q = p;
                    q.push(I::Halt);
                    list.push(source_of(&q));
                }
            }
            i += stride;
        }
    }
    list.sort();
    list.dedup();
    ctx.note(
        &format!("generated programs ({key}, {arch})"),
        json!(list.len()),
    );
    let groups: Vec<&[String]> = list.chunks(24).collect();
    let done = AtomicUsize::new(0);
    ctx.par(groups.len(), |g| {
        let d = Dir::new();
        let ps: Vec<Arc<Prog>> = groups[g]
            .iter()
            .enumerate()
            .map(|(i, t)| Arc::new(Prog::new(&d, &format!("p{i}.ys"), t)))
            .collect();
        let Some(w) = world(ctx, arch, 120, &d, &ps, 5) else {
            return;
        };
        for p in 0..ps.len() {
            for s in sessions(&w, p) {
                run(ctx, &w, key, &s, false);
                if ctx.stopped() {
                    return;
                }
            }
            ctx.add(w.progs[p].1.pcs.len() as u64, 0, 0);
            done.fetch_add(1, Relaxed);
        }
    });
    ctx.outcome("generated programs", done.load(Relaxed) as u64);
}

// ------------------------------------------------------------------ C21

pub fn c21(ctx: &Arc<Ctx>) {
    paths(ctx);
    let dir = Dir::new();
    let mut ps = programs(&dir);
    let (consts, text) = wide();
    ps.push(Arc::new(Prog::new(&dir, "wide.ys", &text)));
    for arch in ARCHS {
        let Some(w) = world(ctx, arch, 30, &dir, &ps, 180) else {
            return;
        };
        // values of signals are shown in full (that every stop shows what the library has is compared below)
        let r = guard(|| {
            let mut s = new_sim(arch, &ps[ps.len() - 1].mem);
            let mut cycles = vec![];
            while !s.sim.is_terminate() && cycles.len() < 2000 {
                s.sim.propagate_signals();
                let info = s.sim.get_stage_info();
                let vals = shown(info.iter().flat_map(|x| &x.signals).map(|x| x.1.as_str()));
                cycles.push((s.sim.program_counter(), vals));
                s.sim.initiate_next_cycle();
            }
            ctx.add(cycles.len() as u64, cycles.len() as u64, 1);
            shows(arch, &consts, &cycles)
        });
        if let Err(e) = r.unwrap_or_else(Err) {
            ctx.violation(Viol::new(e, format!("values:{arch}"), json!({"arch": arch, "source": text})));
            return;
        }
        spellings(ctx, &w);
        // before running, after every step, and past the end
        let np = w.progs.len();
        ctx.par(np, |p| {
            let mut reqs = vec![w.launch(p)];
            reqs.extend(w.observers());
            reqs.push(w.done());
            reqs.extend(w.observers());
            let n = w.progs[p].1.pcs.len();
            for _ in 0..n.min(if p + 1 == np { 200 } else { 45 }) {
                reqs.push(w.next());
                reqs.extend(w.observers());
            }
            run(ctx, &w, "display", &reqs, false);
            ctx.add(w.progs[p].1.pcs.len() as u64, 0, 0);
        });
        // every model state x every observer, including a second launch
        let mut moves: Vec<Req> = (0..np.min(6)).map(|p| w.launch(p)).collect();
        moves.extend([
            w.done(),
            w.next(),
            w.cont(),
            w.bps(0, &[10]),
            w.bps(1, &[6, 9]),
        ]);
        let bad = bad_files(&dir);
        moves.push(refused(&w, &bad)[3].clone());
        let n = bfs(ctx, &w, "display-state", &moves, &[], ctx.pick(4, 7));
        ctx.note(&format!("reachable session states ({arch})"), json!(n));
        if ctx.stopped() {
            return;
        }
        generated(ctx, arch, "display-generated", |w, p| {
            let mut reqs = vec![w.launch(p), w.done()];
            reqs.extend(w.observers());
            for _ in 0..w.progs[p].1.pcs.len() {
                reqs.push(w.next());
                reqs.extend(w.observers());
            }
            let mut by = vec![w.launch(p), w.done(), w.cont()];
            by.extend(w.observers());
            vec![reqs, by]
        });
        if ctx.stopped() {
            return;
        }
    }
    if ctx.stopped() {
        return;
    }
    far(ctx, "display-far", true);
    rewritten(ctx);
    ctx.assume("a plain simulation is the same library driven by CpuSim::step in this process");
}

/// Stops after very many cycles, lines far down in a long file, many breakpoints at once.
fn far(ctx: &Arc<Ctx>, key: &str, observe: bool) {
    let dir = Dir::new();
    // a loop of more than 2^16 (2^17) iterations
    let late = |n: u64| {
        format!(
            "irmovq ${n}, %rcx\nirmovq $1, %rdx\nL: subq %rdx, %rcx\nrrmovq %rcx, %r8\njne L\nirmovq $7, %rax\nE: addq %rax, %rax\nhalt\n"
        )
    };
    let tall = {
        let mut t = String::from("irmovq $1, %rax\nM: addq %rax, %rax\nnop\n");
        for k in 0..70_000 {
            t += &format!("# comment in line {}\n", k + 4);
        }
        t + "irmovq $2, %rbx\nN: addq %rbx, %rax\n\nO:\nrrmovq %rax, %rcx\nirmovq $40, %rdi\nsubq %rax, %rdi\njge M\nhalt\n"
    };
    let mut nops = String::new();
    for k in 0..1000 {
        nops += if k % 3 == 0 { "nop\n" } else { "rrmovq %rax, %rbx\n" };
    }
    let texts = [late(70_001), late(30_000), tall, nops + "halt\n"];
    let ps: Vec<Arc<Prog>> = texts
        .iter()
        .enumerate()
        .map(|(i, t)| Arc::new(Prog::new(&dir, &format!("far{i}.ys"), t)))
        .collect();
    let mut jobs: Vec<(&str, usize, Vec<i64>)> = vec![];
    for arch in ARCHS {
        for p in 0..2 {
            for l in [vec![6], vec![7, 8], vec![]] {
                jobs.push((arch, p, l));
            }
        }
        for l in [vec![2], vec![3], vec![70_004], vec![70_005], vec![70_007], vec![70_008], vec![70_009], vec![2, 70_005], vec![70_004 - 65_536], vec![70_008 - 65_536, 70_010]] {
            jobs.push((arch, 2, l));
        }
        for n in [4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000i64] {
            // n breakpoints; those met first are at the end of the list
            jobs.push((arch, 3, (0..n).map(|k| 1000 - k * (1000 / n)).collect()));
        }
    }
    let worlds: Vec<_> = ARCHS.iter().map(|a| world(ctx, a, 1_000_000, &dir, &ps, 12)).collect();
    if worlds.iter().any(|w| w.is_none()) {
        return;
    }
    ctx.par(jobs.len(), |i| {
        let (a, p, lines) = &jobs[i];
        let w = worlds[ARCHS.iter().position(|x| x == a).unwrap()].as_ref().unwrap();
            let stops = match p {
            2 => 3,
            3 => lines.len() + 1,
            _ => 2,
        };
        let mut reqs = vec![w.launch(*p), w.done(), w.bps(*p, lines)];
        for _ in 0..stops {
            reqs.push(w.cont());
            if observe && stops < 4 {
                reqs.extend(w.observers());
            }
        }
        reqs.extend([w.next(), w.stack()]);
        if observe && stops < 4 {
            reqs.extend(w.observers());
        }
        run(ctx, w, key, &reqs, false);
    });
    ctx.outcome("late stops, lines far down, many breakpoints", jobs.len() as u64);
}

/// What is shown belongs to the file as it was when the session launched it: all sequences of writing another
/// version of the file, launching it, stepping, and changing over to a second session.
fn rewritten(ctx: &Arc<Ctx>) {
    let texts = [
        "irmovq $1, %rax\nirmovq $2, %rbx\naddq %rax, %rbx\nhalt\n",
        "irmovq $3, %rax\nirmovq $4, %rcx\naddq %rax, %rcx\nhalt\n",
        "# moved\n\nirmovq $5, %rax\nnop\nirmovq $6, %rdx\nx: jmp x\n",
    ];
    let (nv, len, parts) = (texts.len(), ctx.pick(4usize, 5), 8);
    let n = 2 * nv + 2;
    ctx.par(ARCHS.len() * parts, |job| {
        let (arch, part) = (ARCHS[job % ARCHS.len()], job / ARCHS.len());
        let dir = Dir::new();
        let ps: Vec<Arc<Prog>> = texts.iter().map(|t| Arc::new(Prog::new(&dir, "prog.ys", t))).collect();
        ctx.begin(|| json!({"arch": arch, "family": "rewritten file"}));
        let Some(w) = world(ctx, arch, 30, &dir, &ps, 40) else { return };
        let mut i = part;
        while i < n.pow(len as u32) && !ctx.stopped() {
            let mut d = fam::Dig(i);
            let ops: Vec<usize> = (0..len).map(|_| d.d(n)).collect();
            i += parts;
            // sequences that end in a write show nothing new
            if *ops.last().unwrap() < nv {
                continue;
            }
            ctx.begin(|| json!({"arch": arch, "operations": ops}));
            let mut log: Vec<String> = vec![];
            let r = (|| {
                let mut ss = [w.fresh()?, w.fresh()?];
                let mut cur = 0;
                let write = |v: usize| std::fs::write(&ps[v].path, &ps[v].text).map_err(|e| e.to_string());
                write(0)?;
                log.push("write version 0".into());
                for &o in &ops {
                    let (c, st) = &mut ss[cur];
                    if o < nv {
                        log.push(format!("write version {o}"));
                        write(o)?;
                    } else if o < 2 * nv {
                        log.push(format!("session {cur}: write and launch version {}", o - nv));
                        write(o - nv)?;
                        w.exec(c, st, &w.launch(o - nv))?;
                        w.exec(c, st, &w.done())?;
                    } else if o == 2 * nv {
                        log.push(format!("session {cur}: next"));
                        if st.st.prog.is_some() {
                            w.exec(c, st, &w.next())?;
                        }
                    } else {
                        cur = 1 - cur;
                    }
                    let (c, st) = &mut ss[cur];
                    for q in w.observers() {
                        w.exec(c, st, &q)?;
                    }
                }
                for (c, st) in &mut ss {
                    w.exec(c, st, &w.disconnect())?;
                }
                Ok::<(), String>(())
            })();
            ctx.end();
            if let Err(e) = r {
                ctx.violation(Viol::new(
                    format!("{arch}: one file in three versions, {log:?}: {e}"),
                    "rewritten",
                    json!({"arch": arch, "versions": texts, "operations": log, "what": e}),
                ));
                return;
            }
            ctx.add(0, len as u64 * 8, 1);
        }
    });
    ctx.outcome("rewritten file: sequences of operations", (ARCHS.len() * n.pow(len as u32)) as u64);
}

// ------------------------------------------------------------------ C22

/// All interleavings of sequences with the given lengths.
fn interleavings(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// Bytes of a client that does not follow the protocol.
fn garbage() -> Vec<(&'static str, Vec<u8>)> {
    let ok = frame(&json!({"seq": 1, "type": "request", "command": "initialize", "arguments": {"adapterID": "x"}}).to_string());
    let after = |b: &[u8]| [ok.clone(), b.to_vec()].concat();
    vec![
        ("nothing", vec![]),
        ("an empty line", b"\r\n".to_vec()),
        ("a line of text", b"hello\r\n\r\n".to_vec()),
        ("another header", b"Content-Type: x\r\n\r\n{}".to_vec()),
        ("a length that is no number", b"Content-Length: abc\r\n\r\n{}".to_vec()),
        ("a negative length", b"Content-Length: -1\r\n\r\n{}".to_vec()),
        ("a length beyond 64 bits", b"Content-Length: 99999999999999999999999\r\n\r\n{}".to_vec()),
        ("the largest length", b"Content-Length: 18446744073709551615\r\n\r\n{}".to_vec()),
        ("length zero", b"Content-Length: 0\r\n\r\n".to_vec()),
        ("half a header", b"Content-Len".to_vec()),
        ("a header without content", b"Content-Length: 10\r\n\r\n".to_vec()),
        ("half the content", b"Content-Length: 10\r\n\r\n{\"se".to_vec()),
        ("content that is not JSON", frame("this is no JSON")),
        ("content that is not UTF-8", b"Content-Length: 4\r\n\r\n\xff\xfe\xfd\xfc".to_vec()),
        ("a header that is not UTF-8", b"\xff\xfe: 4\r\n\r\nabcd".to_vec()),
        ("JSON of another kind", frame("[1,2,3]")),
        ("an unknown command", after(&frame(&json!({"seq": 2, "type": "request", "command": "frobnicate"}).to_string()))),
        ("arguments of the wrong type", after(&frame(&json!({"seq": 2, "type": "request", "command": "next", "arguments": {"threadId": "x"}}).to_string()))),
        ("no initialize", frame(&json!({"seq": 1, "type": "request", "command": "threads"}).to_string())),
        ("deeply nested JSON", frame(&("[".repeat(100_000)))),
        ("a long line", [vec![b'x'; 300_000], b"\r\n".to_vec()].concat()),
        ("binary zeros", vec![0; 5000]),
        ("initialize and half a request", after(b"Content-Length: 50\r\n\r\n{\"seq\": 2")),
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Leave {
    Close,
    Reset,
    Stay,
}

fn scripts(w: &World) -> Vec<(&'static str, Vec<Req>)> {
    vec![
        (
            "breakpoint session",
            vec![w.launch(0), w.bps(0, &[9]), w.done(), w.cont(), w.vars(0)],
        ),
        (
            "stepping session",
            vec![w.launch(1), w.next(), w.next(), w.stack(), w.vars(1)],
        ),
        (
            "same program, other breakpoints",
            vec![
                w.launch(0),
                w.bps(0, &[11, 14]),
                w.cont(),
                w.stack(),
                w.cont(),
            ],
        ),
        (
            "cycle limit",
            vec![w.launch(2), w.cont(), w.next(), w.cont(), w.vars(0)],
        ),
        (
            "failing requests",
            vec![
                rq("launch without program", "launch", Some(json!({})), K::Fail),
                w.cont(),
                w.launch(3),
                w.cont(),
                w.stack(),
            ],
        ),
        (
            "fault, then another program",
            vec![w.launch(3), w.cont(), w.launch(4), w.next(), w.vars(0)],
        ),
        (
            "disconnect early",
            vec![w.launch(4), w.bps(4, &[6]), w.cont(), w.disconnect()],
        ),
        (
            "relative path",
            vec![w.launch(12), w.next(), w.launch(12), w.cont(), w.stack()],
        ),
        (
            "relative path, another directory",
            vec![w.launch(13), w.cont(), w.launch(12), w.next(), w.vars(0)],
        ),
    ]
}

/// More clients connect than the server can have open files for, at every position of a session, and leave
/// again: the session goes on, and further ones are accepted.
fn exhausted(ctx: &Arc<Ctx>, arch: &'static str, dir: &Dir, ps: &[Arc<Prog>]) {
    let rooms = ctx.pick(8, 24);
    let done = AtomicUsize::new(0);
    ctx.par(rooms, |room| {
        let Some(w) = world(ctx, arch, 20, dir, ps, 60) else { return };
        let sc = scripts(&w);
        let (fd0, th0) = w.srv.usage();
        if fd0 < 4 {
            return;
        }
        let max = fd0 + 5 + room as u64;
        for k in 0..4 {
            for p in 1..=sc[k].1.len() {
                ctx.begin(|| json!({"open files": max, "script": sc[k].0, "at": p}));
                let r = (|| {
                    if !w.srv.limit(u64::MAX) {
                        return Ok(());
                    }
                    let (mut c, mut s) = w.fresh()?;
                    for r in &sc[k].1[..p] {
                        w.exec(&mut c, &mut s, r)?;
                    }
                    if !w.srv.limit(max) {
                        return Ok(());
                    }
                    let mut crowd = vec![];
                    for _ in 0..room + 12 {
                        crowd.push(Client::connect(w.srv.port).map_err(|e| format!("a further client: {e}"))?);
                    }
                    // until the server is at its limit
                    for _ in 0..40 {
                        let (f, _) = w.srv.usage();
                        if f + 1 >= max || !w.srv.alive() {
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(2));
                    for r in &sc[k].1[p..] {
                        w.exec(&mut c, &mut s, r)?;
                    }
                    for r in w.observers() {
                        w.exec(&mut c, &mut s, &r)?;
                    }
                    drop(crowd);
                    w.exec(&mut c, &mut s, &w.disconnect())?;
                    // what the crowd used is given back some time
                    let mut last = String::new();
                    for t in 0..400 {
                        let (f, th) = w.srv.usage();
                        if t > 200 || f <= fd0 && th <= th0 {
                            match w.session(&[w.launch(1), w.next(), w.stack(), w.vars(0)]) {
                                Ok(_) => {
                                    last.clear();
                                    break;
                                }
                                Err(e) => last = e,
                            }
                            if !w.srv.alive() {
                                break;
                            }
                        }
                        std::thread::sleep(std::time::Duration::from_millis(if t < 20 { 2 } else { 50 }));
                    }
                    if !last.is_empty() {
                        return Err(format!("after all others have left, a new session fails: {last}"));
                    }
                    Ok::<(), String>(())
                })();
                ctx.end();
                match r {
                    Ok(()) => {
                        ctx.add(0, sc[k].1.len() as u64, 1);
                        done.fetch_add(1, Relaxed);
                    }
                    Err(e) => {
                        ctx.violation(Viol::new(
                            format!("{arch}: more clients than the server's limit of open files allows connect after request {p} of session {:?}: {e} {}", sc[k].0, w.srv.stderr()),
                            "exhausted",
                            json!({"arch": arch, "open_files": max, "session": sc[k].1.iter().map(|r| json!({"command": r.cmd, "arguments": r.args})).collect::<Vec<_>>(), "after": p}),
                        ));
                        return;
                    }
                }
            }
        }
    });
    ctx.outcome("more clients than the limits allow", done.load(Relaxed) as u64);
}

pub fn c22(ctx: &Arc<Ctx>) {
    let dir = Dir::new();
    let mut ps = programs(&dir);
    ps.truncate(12);
    ps.push(Arc::new(Prog::relative(&dir, "sub1", "loop.ys", LOOP)));
    ps.push(Arc::new(Prog::relative(&dir, "sub2", "calls.ys", CALLS)));
    for arch in ARCHS {
        let Some(w) = world(ctx, arch, 20, &dir, &ps, 60) else {
            return;
        };
        let sc = scripts(&w);
        let report = |what: String, order: &[usize], who: &[usize], extra: Value| {
            let names: Vec<&str> = who.iter().map(|i| sc[*i].0).collect();
            let e = w.srv.stderr();
            ctx.violation(Viol::new(
                format!("{arch}: sessions {names:?} interleaved as {order:?}: {what} {e}"),
                "interleaving",
                json!({"arch": arch, "max_cpu_cycle": 20, "sessions": who.iter().map(|i| sc[*i].1.iter().map(|r| json!({"command": r.cmd, "arguments": r.args})).collect::<Vec<_>>()).collect::<Vec<_>>(), "order": order, "extra": extra}),
            ));
        };
        // every interleaving of two sessions; connecting is a step of its own
        let mut pairs = vec![];
        let (abs, rel) = (7, 8);
        for a in 0..abs {
            for b in a..abs {
                pairs.push((a, b));
            }
        }
        pairs.extend([(0, rel - 1), (5, rel), (rel - 1, rel), (rel, rel)]);
        let mut jobs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for (a, b) in &pairs {
            for o in interleavings(&[sc[*a].1.len() + 1, sc[*b].1.len() + 1]) {
                jobs.push((vec![*a, *b], o));
            }
        }
        // every interleaving of three (shortened) sessions
        let short = ctx.pick(2, 3);
        for t in [[0, 2, 3], [1, 4, 6], [0, 5, 3], [2, 2, 2]] {
            for o in interleavings(&[short + 1, short + 1, short + 1]) {
                jobs.push((t.to_vec(), o));
            }
        }
        let total = AtomicUsize::new(0);
        ctx.par(jobs.len(), |i| {
            let (who, order) = &jobs[i];
            ctx.begin(|| json!({"sessions": who, "order": order}));
            let lim = if who.len() == 3 { short } else { usize::MAX };
            let r = (|| {
                let mut cs: Vec<Option<(Client, Sess)>> = who.iter().map(|_| None).collect();
                let mut at = vec![0; who.len()];
                for &s in order {
                    if cs[s].is_none() {
                        cs[s] = Some(w.fresh()?);
                        continue;
                    }
                    let (c, ss) = cs[s].as_mut().unwrap();
                    let script = &sc[who[s]].1;
                    if at[s] < script.len().min(lim) && !ss.over {
                        w.exec(c, ss, &script[at[s]])?;
                        at[s] += 1;
                    }
                }
                for (c, ss) in cs.iter_mut().flatten() {
                    if !ss.over {
                        for r in w.observers() {
                            w.exec(c, ss, &r).map_err(|e| format!("afterwards: {e}"))?;
                        }
                    }
                }
                for (mut c, mut ss) in cs.into_iter().flatten() {
                    if !ss.over {
                        w.exec(&mut c, &mut ss, &w.disconnect())?;
                    }
                }
                Ok::<(), String>(())
            })();
            ctx.end();
            match r {
                Ok(()) => {
                    ctx.add(order.len() as u64, order.len() as u64, 1);
                    total.fetch_add(1, Relaxed);
                }
                Err(e) => report(e, order, who, Value::Null),
            }
        });
        ctx.outcome(
            "interleavings of two or three sessions",
            total.load(Relaxed) as u64,
        );
        if ctx.stopped() {
            return;
        }

        // both sessions have a request in flight at every step: all pairs of sessions and relative offsets
        let offs: i64 = 4;
        ctx.par(pairs.len() * (2 * offs as usize + 1), |i| {
            let (a, b) = pairs[i / (2 * offs as usize + 1)];
            let off = (i % (2 * offs as usize + 1)) as i64 - offs;
            ctx.begin(|| json!({"in flight": [a, b], "offset": off}));
            let r = (|| {
                let (mut ca, mut sa) = w.fresh()?;
                let (mut cb, mut sb) = w.fresh()?;
                let (pa, pb) = (&sc[a].1, &sc[b].1);
                let n = pa.len() as i64 + pb.len() as i64 + 2 * offs;
                for t in 0..n {
                    let ra = pa
                        .get((t - offs.max(0)) as usize)
                        .filter(|_| t >= offs && !sa.over);
                    let rb = pb
                        .get((t - offs - off) as usize)
                        .filter(|_| t >= offs + off && !sb.over);
                    let qa = ra.map(|r| ca.send(&r.cmd, &r.args)).transpose()?;
                    let qb = rb.map(|r| cb.send(&r.cmd, &r.args)).transpose()?;
                    if let (Some(q), Some(r)) = (qb, rb) {
                        w.answer(&mut cb, &mut sb, r, q)
                            .map_err(|e| format!("{}: {e}", r.name))?;
                    }
                    if let (Some(q), Some(r)) = (qa, ra) {
                        w.answer(&mut ca, &mut sa, r, q)
                            .map_err(|e| format!("{}: {e}", r.name))?;
                    }
                }
                Ok::<(), String>(())
            })();
            ctx.end();
            match r {
                Ok(()) => ctx.add(0, 10, 1),
                Err(e) => report(
                    format!("requests in flight at the same time, offset {off}: {e}"),
                    &[],
                    &[a, b],
                    Value::Null,
                ),
            }
        });
        ctx.outcome(
            "pairs with requests in flight together",
            pairs.len() as u64 * 9,
        );

        // a client that misbehaves before, between and after the steps of another session
        let gs = garbage();
        let script = &sc[0].1;
        let leaves = [Leave::Close, Leave::Reset, Leave::Stay];
        let spots = script.len() + 1;
        let dims = gs.len() * leaves.len() * spots * spots;
        ctx.par(dims, |i| {
            let mut d = fam::Dig(i);
            let (g, l, p, q) = (&gs[d.d(gs.len())], leaves[d.d(3)], d.d(spots), d.d(spots));
            if q < p {
                return;
            }
            ctx.begin(
                || json!({"misbehaving client": g.0, "leaves": format!("{l:?}"), "at": [p, q]}),
            );
            let r = (|| {
                let (mut c, mut s) = w.fresh()?;
                let mut bad: Option<Client> = None;
                for k in 0..=script.len() {
                    if k == p {
                        let mut b = Client::connect(w.srv.port)?;
                        let _ = b.raw(&g.1);
                        bad = Some(b);
                    }
                    if k == q {
                        match (l, bad.take()) {
                            (Leave::Close, Some(mut b)) => b.shutdown_write(),
                            (Leave::Reset, Some(b)) => b.reset(),
                            (Leave::Stay, b) => bad = b,
                            _ => {}
                        }
                    }
                    if let Some(r) = script.get(k) {
                        w.exec(&mut c, &mut s, r)?;
                    }
                }
                for r in w.observers() {
                    w.exec(&mut c, &mut s, &r)?;
                }
                w.exec(&mut c, &mut s, &w.disconnect())?;
                // and the server still accepts a session
                w.session(&[w.launch(1), w.next()])
                    .map_err(|e| format!("a new session afterwards: {e}"))?;
                Ok::<(), String>(())
            })();
            ctx.end();
            match r {
                Ok(()) => ctx.add(0, script.len() as u64, 1),
                Err(e) => report(
                    format!("another client sends {} and leaves by {l:?}: {e}", g.0),
                    &[p, q],
                    &[0],
                    json!({"bytes": hex(&g.1[..g.1.len().min(200)])}),
                ),
            }
        });
        ctx.outcome("misbehaving clients x positions", dims as u64);
        if ctx.stopped() {
            return;
        }

        // many sessions at once
        let many = ctx.pick(300, 800);
        let r = (|| {
            let mut v = vec![];
            for _ in 0..many {
                v.push(w.fresh()?);
            }
            for k in 0..5 {
                for (i, (c, s)) in v.iter_mut().enumerate() {
                    if let Some(r) = sc[i % sc.len()].1.get(k) {
                        if !s.over {
                            w.exec(c, s, r)?;
                        }
                    }
                }
            }
            for (i, (mut c, mut s)) in v.into_iter().enumerate() {
                if i % 2 == 0 && !s.over {
                    for r in w.observers() {
                        w.exec(&mut c, &mut s, &r)?;
                    }
                }
            }
            Ok::<(), String>(())
        })();
        match r {
            Ok(()) => ctx.add(0, many as u64 * 5, 1),
            Err(e) => report(
                format!("{many} sessions at once: {e}"),
                &[],
                &[],
                Value::Null,
            ),
        }
        if !w.srv.alive() {
            report("the server has ended".into(), &[], &[], Value::Null);
        }
        if ctx.stopped() {
            return;
        }

        exhausted(ctx, arch, &dir, &ps);
        if ctx.stopped() {
            return;
        }

        // one client runs a program without end while another works
        let Some(w2) = world(
            ctx,
            arch,
            4_000_000_000_000,
            &dir,
            &[ps[0].clone(), ps[1].clone()],
            0,
        ) else {
            return;
        };
        let spin = ps[2].clone();
        let r = (|| {
            let (mut c, mut s) = w2.fresh()?;
            w2.exec(
                &mut c,
                &mut s,
                &rq(
                    "launch(spin)",
                    "launch",
                    Some(json!({"program": spin.path})),
                    K::Noop,
                ),
            )?;
            let q = c.send("continue", &Some(json!({"threadId": w2.srv.refs.thread})))?;
            if !c.response(q, "continue")?.0 {
                return Err("continue fails".to_string());
            }
            for _ in 0..3 {
                w2.session(&[
                    w2.launch(0),
                    w2.bps(0, &[9]),
                    w2.done(),
                    w2.cont(),
                    w2.stack(),
                    w2.vars(0),
                    w2.cont(),
                    w2.cont(),
                ])
                .map_err(|e| format!("while another session runs a program without end: {e}"))?;
            }
            Ok::<(), String>(())
        })();
        match r {
            Ok(()) => ctx.add(0, 24, 3),
            Err(e) => report(e, &[], &[], Value::Null),
        }

        // announced lengths that no memory can hold (a server of their own: see the known findings)
        if arch == "seq_std" {
            for n in ["100000000000000000", "9223372036854775807"] {
                let Some(w3) = world(ctx, arch, 20, &dir, &[ps[0].clone()], 10) else {
                    return;
                };
                let r = (|| {
                    let (mut c, mut s) = w3.fresh()?;
                    w3.exec(&mut c, &mut s, &w3.launch(0))?;
                    let mut b = Client::connect(w3.srv.port)?;
                    b.raw(format!("Content-Length: {n}\r\n\r\n{{}}").as_bytes())?;
                    b.shutdown_write();
                    // the server answers the bad client by closing, or ends
                    let _ = b.recv();
                    w3.srv.wait_dead(50);
                    w3.exec(&mut c, &mut s, &w3.next())?;
                    w3.session(&[w3.launch(0)])?;
                    Ok::<(), String>(())
                })();
                ctx.add(0, 4, 1);
                if let Err(e) = r {
                    ctx.violation(Viol::new(
                        format!("a client announcing Content-Length {n} ends the server and every other session: {e} {}", w3.srv.stderr()),
                        format!("content-length:{n}"),
                        json!({"arch": arch, "bytes": format!("Content-Length: {n}\r\n\r\n{{}}"), "what": e}),
                    ));
                }
            }
            ctx.sample(json!({"two sessions": [sc[0].1.iter().map(|r| r.name.clone()).collect::<Vec<_>>(), sc[3].1.iter().map(|r| r.name.clone()).collect::<Vec<_>>()], "one order": jobs[100].1}));
        }
    }
}

// ------------------------------------------------------------------ C23 (debugger part)

pub fn c23_dbg(ctx: &Arc<Ctx>) {
    let dir = Dir::new();
    let ps: Vec<Arc<Prog>> = limit_programs(false)
        .iter()
        .enumerate()
        .filter(|(_, (n, _))| n != "1000 instructions")
        .map(|(i, (_, p))| Arc::new(Prog::new(&dir, &format!("p{i}.ys"), &source_of(p))))
        .collect();
    let limits: Vec<u64> = (1..=ctx.pick(24, 60))
        .chain([99, 100, 101, 105, 1000, 4096])
        .collect();
    let jobs: Vec<(&str, u64)> = ARCHS
        .iter()
        .flat_map(|a| limits.iter().map(move |n| (*a, *n)))
        .collect();
    ctx.par(jobs.len(), |i| {
        let (a, n) = jobs[i];
        let Some(w) = world(ctx, a, n, &dir, &ps, 12) else {
            return;
        };
        for p in 0..ps.len() {
            for steps in [
                0usize,
                1,
                2,
                n.saturating_sub(1) as usize,
                n as usize,
                n as usize + 1,
            ] {
                if steps > 30 {
                    continue;
                }
                let mut reqs = vec![w.launch(p), w.done()];
                reqs.extend((0..steps).map(|_| w.next()));
                reqs.extend([w.cont(), w.stack(), w.cont(), w.next(), w.cont()]);
                if run(ctx, &w, "continue-limit", &reqs, false).is_none() {
                    return;
                }
            }
            ctx.add(w.progs[p].1.pcs.len() as u64, 0, 0);
            ctx.outcome(
                if w.progs[p].1.stop().is_some_and(|k| k as u64 <= n) {
                    "debugger: stops within the limit"
                } else {
                    "debugger: cut off"
                },
                1,
            );
        }
    });
    // limits beyond the counters one might take: all programs up to 2^17, those that end beyond
    let mut far = ps.clone();
    for k in [65_533u64, 65_600, 140_000] {
        far.push(Arc::new(Prog::new(&dir, &format!("far{k}.ys"), &source_of(&crate::cli::counted(k)))));
    }
    let big: Vec<(&str, u64)> = ARCHS
        .iter()
        .flat_map(|a| {
            [32_767u64, 32_769, 65_535, 65_536, 65_537, 65_540, 131_075]
                .into_iter()
                .chain((31..64).map(|k| (1 << k) + 5))
                .chain([1 << 31, 1 << 32, 1 << 63, i64::MAX as u64, u64::MAX - 1, u64::MAX])
                .map(move |n| (*a, n))
        })
        .collect();
    ctx.par(big.len(), |i| {
        let (a, n) = big[i];
        let ends: Vec<Arc<Prog>>;
        let ps = if n < 1 << 20 {
            &far
        } else {
            ends = far.iter().filter(|p| crate::cli::cycles_to_stop(a, &p.mem, 300_000).is_some()).cloned().collect();
            &ends
        };
        let Some(w) = world(ctx, a, n, &dir, ps, 12) else {
            return;
        };
        for p in 0..ps.len() {
            // the short ones once more, the long ones
            if p % 5 == i % 5 || p + 3 >= ps.len() || w.progs[p].1.stop().is_none() && n < 40_000 {
                run(ctx, &w, "continue-limit", &[w.launch(p), w.cont(), w.stack(), w.cont(), w.next()], false);
            }
        }
        ctx.outcome("debugger: far limits", 1);
    });
    // counts beyond 20 bits: a program that never ends, under limits it can reach
    let wide: Vec<(&str, u64)> = ARCHS
        .iter()
        .flat_map(|a| ctx.pick(vec![1_048_577u64, 1_200_003], vec![1_048_577, 1_200_003, 1_600_000, 1_900_001]).into_iter().map(move |n| (*a, n)))
        .collect();
    let endless = vec![
        Arc::new(Prog::new(&dir, "endless1.ys", &source_of(&[I::Lab(0), I::Nop, I::J(0, T::L(0))]))),
        Arc::new(Prog::new(&dir, "endless2.ys", &source_of(&crate::cli::counted(1_060_000)))),
    ];
    ctx.par(wide.len(), |i| {
        let (a, n) = wide[i];
        let Some(w) = world(ctx, a, n, &dir, &endless, 12) else {
            return;
        };
        for p in 0..endless.len() {
            run(ctx, &w, "continue-limit", &[w.launch(p), w.cont(), w.cont(), w.next(), w.launch(p), w.next(), w.cont()], false);
            ctx.add(w.progs[p].1.pcs.len() as u64, 0, 0);
        }
        ctx.outcome("debugger: limits beyond 20 bits", 1);
    });
    // the default limit, and an endless program under it
    for a in ARCHS {
        let Some(w) = world(ctx, a, 50_000, &dir, &ps, 12) else {
            return;
        };
        for p in 0..ps.len() {
            run(
                ctx,
                &w,
                "continue-limit",
                &[w.launch(p), w.cont(), w.cont(), w.next()],
                false,
            );
        }
    }
}
