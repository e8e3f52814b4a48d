//! The debug server as a process, driven over the Debug Adapter Protocol: C19-C23.
use crate::arch::*;
use crate::cli::{bin, limit, Dir};
use crate::common::*;
use crate::refasm::{self, Item, Verdict};
use crate::refisa::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::os::fd::AsRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;

extern "C" {
    fn prlimit64(pid: i32, resource: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}

// ---------------------------------------------------------------- server process

pub struct Server {
    child: Mutex<Child>,
    pub port: u16,
    pub arch: String,
    pub max: u64,
    pub refs: Refs,
    err: Arc<Mutex<String>>,
}

/// Identifiers the server hands out.
#[derive(Clone, Default)]
pub struct Refs {
    pub thread: i64,
    pub frame: i64,
    pub vars: Vec<i64>,
}

impl Server {
    pub fn start(arch: &str, max: u64, cwd: &std::path::Path) -> Result<Server, String> {
        let mut c = Command::new(bin("ydb"));
        c.args([
            "-p",
            "0",
            "--arch",
            arch,
            "--max-cpu-cycle",
            &max.to_string(),
        ]);
        // what is logged makes no difference
        match arch {
            "seq_plus_std" if max <= 100 => {
                c.arg("-q");
            }
            "pipe_std" if max <= 100 => {
                c.arg("-vvv");
            }
            _ => {}
        }
        c.stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped());
        c.env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
        limit(&mut c, 3000);
        c.current_dir(cwd);
        let mut child = c.spawn().map_err(|e| format!("cannot start ydb: {e}"))?;
        let mut r = BufReader::new(child.stderr.take().unwrap());
        let err = Arc::new(Mutex::new(String::new()));
        let e2 = err.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut l = String::new();
            while r.read_line(&mut l).unwrap_or(0) > 0 {
                if let Some(i) = l.find("127.0.0.1:") {
                    let port: Option<u16> = l[i + 10..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect::<String>()
                        .parse()
                        .ok();
                    let _ = tx.send(port);
                }
                let mut g = e2.lock().unwrap();
                if g.len() < 1 << 16 {
                    g.push_str(&l);
                }
                l.clear();
            }
        });
        let Ok(Some(port)) = rx.recv_timeout(Duration::from_secs(60)) else {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!(
                "the debug server does not start listening on 127.0.0.1: {}",
                err.lock().unwrap()
            ));
        };
        Ok(Server {
            child: Mutex::new(child),
            port,
            arch: arch.into(),
            max,
            refs: Refs::default(),
            err,
        })
    }
    pub fn alive(&self) -> bool {
        matches!(self.child.lock().unwrap().try_wait(), Ok(None))
    }
    pub fn stderr(&self) -> String {
        let g = self.err.lock().unwrap();
        g.lines()
            .filter(|l| {
                l.contains("panicked") || l.contains("memory allocation") || l.contains("overflow")
            })
            .take(3)
            .collect::<Vec<_>>()
            .join("; ")
    }
    /// Limit the number of files the running server can have open.
    pub fn limit(&self, n: u64) -> bool {
        let pid = self.child.lock().unwrap().id() as i32;
        let mut old = [0u64; 2];
        unsafe {
            prlimit64(pid, 7, std::ptr::null(), &mut old) == 0
                && prlimit64(pid, 7, &[n.min(old[1]), old[1]], std::ptr::null_mut()) == 0
        }
    }
    /// Number of open files and of threads.
    pub fn usage(&self) -> (u64, u64) {
        let pid = self.child.lock().unwrap().id();
        let n = |d| std::fs::read_dir(format!("/proc/{pid}/{d}")).map_or(0, |d| d.count() as u64);
        (n("fd"), n("task"))
    }
    pub fn wait_dead(&self, ms: u64) -> bool {
        for _ in 0..ms / 5 {
            if !self.alive() {
                return true;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        false
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

// ---------------------------------------------------------------- client

pub struct Client {
    s: TcpStream,
    buf: Vec<u8>,
    pos: usize,
    seq_in: i64,
    pub seq: i64,
}

pub fn frame(body: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}

impl Client {
    pub fn connect(port: u16) -> Result<Client, String> {
        let mut last = String::new();
        for _ in 0..200 {
            match TcpStream::connect(("127.0.0.1", port)) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
                    let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
                    return Ok(Client {
                        s,
                        buf: vec![],
                        pos: 0,
                        seq_in: 0,
                        seq: 0,
                    });
                }
                Err(e) => {
                    last = e.to_string();
                    if e.kind() == std::io::ErrorKind::ConnectionRefused {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
        }
        Err(format!(
            "the debug server does not accept a connection: {last}"
        ))
    }
    fn quickack(&self) {
        let one = 1i32;
        unsafe { setsockopt(self.s.as_raw_fd(), 6, 12, &one, 4) };
    }
    /// close with a reset: no lingering socket
    pub fn reset(self) {
        let l = [1i32, 0];
        unsafe { setsockopt(self.s.as_raw_fd(), 1, 13, l.as_ptr(), 8) };
    }
    pub fn raw(&mut self, b: &[u8]) -> Result<(), String> {
        self.s
            .write_all(b)
            .map_err(|e| format!("connection lost: {e}"))
    }
    pub fn shutdown_write(&mut self) {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
    }
    pub fn encode(seq: i64, cmd: &str, args: &Option<Value>) -> Vec<u8> {
        let mut o = json!({"seq": seq, "type": "request", "command": cmd});
        if let Some(a) = args {
            o["arguments"] = a.clone();
        }
        frame(&o.to_string())
    }
    pub fn send(&mut self, cmd: &str, args: &Option<Value>) -> Result<i64, String> {
        self.seq += 1;
        let b = Self::encode(self.seq, cmd, args);
        self.raw(&b)?;
        Ok(self.seq)
    }
    /// None: closed by the server
    fn fill(&mut self) -> Result<bool, String> {
        if self.pos > 0 && self.pos == self.buf.len() {
            self.buf.clear();
            self.pos = 0;
        }
        let mut t = [0u8; 16384];
        self.quickack();
        match self.s.read(&mut t) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&t[..n]);
                Ok(true)
            }
            Err(e)
                if e.kind() == std::io::ErrorKind::ConnectionReset
                    || e.kind() == std::io::ErrorKind::BrokenPipe =>
            {
                Ok(false)
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(true),
            Err(e) => Err(format!("no answer from the server: {e}")),
        }
    }
    pub fn recv(&mut self) -> Result<Option<Value>, String> {
        loop {
            while self.pos < self.buf.len()
                && (self.buf[self.pos] == b'\r' || self.buf[self.pos] == b'\n')
            {
                self.pos += 1;
            }
            let b = &self.buf[self.pos..];
            if let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&b[..h]).to_string();
                let n: usize = head
                    .strip_prefix("Content-Length:")
                    .and_then(|x| x.trim().parse().ok())
                    .ok_or_else(|| format!("message with a bad header {head:?}"))?;
                if b.len() >= h + 4 + n {
                    let v: Value = serde_json::from_slice(&b[h + 4..h + 4 + n])
                        .map_err(|e| format!("message is not JSON: {e}"))?;
                    self.pos += h + 4 + n;
                    self.seq_in += 1;
                    if v["seq"] != json!(self.seq_in) {
                        return Err(format!(
                            "message number {} has seq {}",
                            self.seq_in, v["seq"]
                        ));
                    }
                    return Ok(Some(v));
                }
            }
            if !self.fill()? {
                let rest: Vec<u8> = self.buf[self.pos..]
                    .iter()
                    .copied()
                    .filter(|c| !c.is_ascii_whitespace())
                    .collect();
                if !rest.is_empty() {
                    return Err(format!(
                        "connection closed in the middle of a message: {}",
                        String::from_utf8_lossy(&rest)
                    ));
                }
                return Ok(None);
            }
        }
    }
    pub fn must(&mut self) -> Result<Value, String> {
        self.recv()?
            .ok_or_else(|| "the server closed the connection".to_string())
    }
    pub fn event(&mut self, name: &str) -> Result<Value, String> {
        let v = self.must()?;
        if v["type"] != "event" || v["event"] != name {
            return Err(format!("expected event {name}, got {v}"));
        }
        Ok(v)
    }
    /// Wait for the response of request `seq`: its success and body.
    pub fn response(&mut self, seq: i64, cmd: &str) -> Result<(bool, Value), String> {
        let v = self.must()?;
        if v["type"] != "response" {
            return Err(format!(
                "expected the response to {cmd} (seq {seq}), got {v}"
            ));
        }
        if v["request_seq"] != json!(seq) {
            return Err(format!(
                "expected the response to {cmd} (seq {seq}), got {v}"
            ));
        }
        let Some(ok) = v["success"].as_bool() else {
            return Err(format!("response without success: {v}"));
        };
        match v.get("command") {
            Some(c) if *c != cmd => {
                return Err(format!("response names another command than {cmd}: {v}"))
            }
            None if ok => return Err(format!("response does not name its command {cmd}: {v}")),
            _ => {}
        }
        Ok((ok, v["body"].clone()))
    }
    pub fn initialize(&mut self) -> Result<(), String> {
        let s = self.send("initialize", &Some(json!({"adapterID": "y86"})))?;
        self.initialized(s)
    }
    pub fn initialized(&mut self, s: i64) -> Result<(), String> {
        let (ok, body) = self.response(s, "initialize")?;
        if !ok || body["supportsConfigurationDoneRequest"] != true {
            return Err(format!("initialize is answered with {ok} {body}"));
        }
        self.event("initialized")?;
        Ok(())
    }
    /// The connection ends without a further message.
    pub fn closed(&mut self) -> Result<(), String> {
        match self.recv()? {
            None => Ok(()),
            Some(v) => Err(format!("unexpected message {v}")),
        }
    }
}

// ---------------------------------------------------------------- programs and plain simulations

#[derive(Clone, PartialEq, Debug)]
pub struct Snap {
    pub pc: u64,
    pub term: bool,
    pub regs: [u64; 16],
    pub stages: Vec<(String, Vec<(String, String)>)>,
}

fn snap(s: &Sim) -> Snap {
    let mut regs = [0; 16];
    for (i, r) in s.sim.registers().iter().enumerate() {
        regs[i] = *r;
    }
    Snap {
        pc: s.sim.program_counter(),
        term: s.sim.is_terminate(),
        regs,
        stages: s
            .sim
            .get_stage_info()
            .into_iter()
            .map(|s| {
                (
                    s.name.to_string(),
                    s.signals
                        .into_iter()
                        .map(|(a, b)| (a.to_string(), b))
                        .collect(),
                )
            })
            .collect(),
    }
}

/// A plain simulation: pc and termination after every cycle, full states for the first ones.
pub struct Trace {
    pub pcs: Vec<(u64, bool)>,
    pub full: Vec<Snap>,
    arch: String,
    mem: Box<Mem>,
}

const FULL: usize = 300;

impl Trace {
    pub fn new(arch: &str, m: &Mem, upto: usize) -> Trace {
        let mut s = new_sim(arch, m);
        let mut t = Trace {
            pcs: vec![],
            full: vec![],
            arch: arch.into(),
            mem: Box::new(*m),
        };
        for k in 0..=upto {
            if k > 0 {
                s.sim.step();
            }
            t.pcs.push((s.sim.program_counter(), s.sim.is_terminate()));
            if t.full.len() <= FULL {
                t.full.push(snap(&s));
            }
            if s.sim.is_terminate() {
                break;
            }
        }
        t
    }
    pub fn at(&self, k: usize) -> Snap {
        if let Some(s) = self.full.get(k) {
            return s.clone();
        }
        let mut s = new_sim(&self.arch, &self.mem);
        for _ in 0..k {
            s.sim.step();
        }
        snap(&s)
    }
    pub fn stop(&self) -> Option<usize> {
        self.pcs.last().filter(|x| x.1).map(|_| self.pcs.len() - 1)
    }
}

/// Numbers among the values shown.
pub fn shown<'a>(vals: impl Iterator<Item = &'a str>) -> std::collections::HashSet<u64> {
    let mut h = std::collections::HashSet::new();
    for v in vals {
        for t in v.split(|c: char| !(c.is_ascii_alphanumeric() || c == '-')) {
            let n = match t.strip_prefix("0x").or(t.strip_prefix("0X")) {
                Some(x) => u64::from_str_radix(x, 16).ok(),
                None => t.parse::<u64>().ok().or(t.parse::<i64>().ok().map(|x| x as u64)),
            };
            h.extend(n);
        }
    }
    h
}

/// Constants with every bit set and clear, loaded as immediates and from memory.
pub fn wide() -> (Vec<u64>, String) {
    let mut c: Vec<u64> = (0..64).flat_map(|k| [1 << k, !(1u64 << k)]).collect();
    c.extend([0, u64::MAX, 0x0123456789abcdef, 0xfedcba9876543210, 0xffff_ffff, 0xffff_ffff_0000_0000, i64::MAX as u64, 1 << 63]);
    let mut t = String::new();
    for x in &c {
        t += &format!("  irmovq ${x:#x}, %rax\n");
    }
    t += "  irmovq data, %rbx\n  irmovq $8, %rcx\n";
    for _ in &c {
        t += "  mrmovq (%rbx), %rdx\n  addq %rcx, %rbx\n";
    }
    t += "  halt\n  .align 8\ndata:\n";
    for x in &c {
        t += &format!("  .quad {x:#x}\n");
    }
    (c, t)
}

/// While the program of `wide` runs, its constants are shown as the values they are.
pub fn shows(arch: &str, consts: &[u64], cycles: &[(u64, std::collections::HashSet<u64>)]) -> Result<(), String> {
    for (i, (pc, vals)) in cycles.iter().enumerate() {
        if !vals.contains(pc) {
            return Err(format!("{arch}: in cycle {} no signal shows the program counter {pc:#x}", i + 1));
        }
    }
    for (what, at, by) in [("immediate", 0, 1), ("value loaded", consts.len() + 2, 2)] {
        for (i, c) in consts.iter().enumerate() {
            // a pipelined processor has it in one of the cycles of the instruction
            let k = at + i * by;
            let w = if arch.starts_with("pipe") { k..(k + 8).min(cycles.len()) } else { k..k + 1 };
            let Some(w) = cycles.get(w) else {
                return Err(format!("{arch}: the program ends in cycle {}", cycles.len()));
            };
            if !w.iter().any(|x| x.1.contains(c)) {
                return Err(format!("{arch}: no signal shows the {what} {c:#x} in cycle {} or while its instruction is executed", k + 1));
            }
        }
    }
    Ok(())
}

pub struct Prog {
    pub path: String,
    pub name: String,
    pub text: String,
    pub lines: Vec<Option<u64>>,
    pub inst: Vec<bool>,
    pub mem: Box<Mem>,
}

impl Prog {
    pub fn new(dir: &Dir, name: &str, text: &str) -> Prog {
        let path = dir.file(name, text).display().to_string();
        Self::at(path, name, text)
    }
    /// given by its path relative to the directory the server runs in
    pub fn relative(dir: &Dir, sub: &str, name: &str, text: &str) -> Prog {
        let _ = std::fs::create_dir(dir.0.join(sub));
        let path = format!("{sub}/{name}");
        dir.file(&path, text);
        Self::at(path, name, text)
    }
    /// at a path written in an unusual way; `make` are the directories needed
    pub fn spelled(dir: &Dir, path: &str, absolute: bool, text: &str) -> Prog {
        let full = dir.0.join(path);
        let mut up = std::path::PathBuf::new();
        for c in full.parent().unwrap().components() {
            up.push(c);
            let _ = std::fs::create_dir(&up);
        }
        std::fs::write(&full, text).expect("scratch file");
        let name = full.file_name().unwrap().to_str().unwrap().to_string();
        let path = if absolute { format!("{}/{path}", dir.0.display()) } else { path.to_string() };
        Self::at(path, &name, text)
    }
    fn at(path: String, name: &str, text: &str) -> Prog {
        let Verdict::Ok(o) = refasm::assemble(text) else {
            panic!("program of the harness does not assemble: {text}")
        };
        Prog {
            path,
            name: name.into(),
            text: text.into(),
            lines: o.at.iter().map(|x| x.0).collect(),
            inst: o
                .lines
                .iter()
                .map(|l| matches!(l.item, Some(Item::Inst(..))))
                .collect(),
            mem: o.mem,
        }
    }
}

/// A set of programs with their plain simulations on one architecture.
pub struct World {
    pub srv: Server,
    pub progs: Vec<(Arc<Prog>, Trace)>,
    pub dir: String,
}

impl World {
    pub fn new(
        arch: &str,
        max: u64,
        dir: &Dir,
        progs: &[Arc<Prog>],
        slack: usize,
    ) -> Result<World, String> {
        let mut srv = Server::start(arch, max, &dir.0)?;
        let progs: Vec<_> = progs
            .iter()
            .map(|p| (p.clone(), Trace::new(arch, &p.mem, max.min(2_000_000) as usize + slack)))
            .collect();
        // learn the identifiers
        let mut c = Client::connect(srv.port)?;
        c.initialize()?;
        let ask = |c: &mut Client, cmd: &str, a: Option<Value>| -> Result<Value, String> {
            let s = c.send(cmd, &a)?;
            let (ok, b) = c.response(s, cmd)?;
            if !ok {
                return Err(format!("{cmd} fails"));
            }
            Ok(b)
        };
        ask(&mut c, "launch", Some(json!({"program": progs[0].0.path})))?;
        let b = ask(&mut c, "threads", None)?;
        srv.refs.thread = b["threads"][0]["id"].as_i64().ok_or("no thread")?;
        let b = ask(
            &mut c,
            "stackTrace",
            Some(json!({"threadId": srv.refs.thread})),
        )?;
        srv.refs.frame = b["stackFrames"][0]["id"].as_i64().ok_or("no frame")?;
        let b = ask(&mut c, "scopes", Some(json!({"frameId": srv.refs.frame})))?;
        srv.refs.vars = b["scopes"]
            .as_array()
            .map(|a| {
                a.iter()
                    .filter_map(|s| s["variablesReference"].as_i64())
                    .collect()
            })
            .unwrap_or_default();
        c.reset();
        Ok(World {
            srv,
            progs,
            dir: dir.0.display().to_string(),
        })
    }
}

// ---------------------------------------------------------------- session model

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct St {
    pub prog: Option<usize>,
    pub k: usize,
    pub bps: BTreeSet<u64>,
    /// breakpoints of an earlier launch: kept or dropped, both are fine
    pub stale: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Launch(usize),
    ConfDone,
    Bps(usize, Vec<i64>),
    Next,
    Continue,
    Threads,
    Stack,
    /// a later frame
    StackRest,
    Scopes,
    Vars(usize),
    /// success without effect
    Noop,
    /// needs a program but changes nothing
    Fail,
    /// success or failure are both fine
    Any,
    Disconnect,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub name: String,
    pub cmd: String,
    pub args: Option<Value>,
    pub k: K,
}

pub fn rq(name: &str, cmd: &str, args: Option<Value>, k: K) -> Req {
    Req {
        name: name.into(),
        cmd: cmd.into(),
        args,
        k,
    }
}

impl World {
    pub fn launch(&self, p: usize) -> Req {
        rq(
            &format!("launch({})", self.progs[p].0.name),
            "launch",
            Some(json!({"program": self.progs[p].0.path})),
            K::Launch(p),
        )
    }
    pub fn next(&self) -> Req {
        rq(
            "next",
            "next",
            Some(json!({"threadId": self.srv.refs.thread})),
            K::Next,
        )
    }
    pub fn cont(&self) -> Req {
        rq(
            "continue",
            "continue",
            Some(json!({"threadId": self.srv.refs.thread})),
            K::Continue,
        )
    }
    pub fn done(&self) -> Req {
        rq("configurationDone", "configurationDone", None, K::ConfDone)
    }
    pub fn bps(&self, p: usize, lines: &[i64]) -> Req {
        rq(
            &format!("setBreakpoints({},{lines:?})", self.progs[p].0.name),
            "setBreakpoints",
            Some(
                json!({"source": {"path": self.progs[p].0.path}, "breakpoints": lines.iter().map(|l| json!({"line": l})).collect::<Vec<_>>()}),
            ),
            K::Bps(p, lines.to_vec()),
        )
    }
    pub fn threads(&self) -> Req {
        rq("threads", "threads", None, K::Threads)
    }
    pub fn stack(&self) -> Req {
        rq(
            "stackTrace",
            "stackTrace",
            Some(json!({"threadId": self.srv.refs.thread})),
            K::Stack,
        )
    }
    pub fn scopes(&self) -> Req {
        rq(
            "scopes",
            "scopes",
            Some(json!({"frameId": self.srv.refs.frame})),
            K::Scopes,
        )
    }
    pub fn vars(&self, i: usize) -> Req {
        rq(
            &format!("variables({i})"),
            "variables",
            Some(json!({"variablesReference": self.srv.refs.vars[i]})),
            K::Vars(i),
        )
    }
    pub fn disconnect(&self) -> Req {
        rq("disconnect", "disconnect", Some(json!({})), K::Disconnect)
    }
    pub fn observers(&self) -> Vec<Req> {
        let mut o = vec![self.threads(), self.stack(), self.scopes()];
        o.extend((0..self.srv.refs.vars.len()).map(|i| self.vars(i)));
        o
    }

    /// Possible results of a run: cycle reached and the reasons it may report.
    fn targets(&self, st: &St, single: bool) -> Vec<(usize, BTreeSet<&'static str>)> {
        let t = &self.progs[st.prog.unwrap()].1;
        let mut out = vec![];
        let variants: Vec<BTreeSet<u64>> = if st.stale {
            vec![st.bps.clone(), BTreeSet::new()]
        } else {
            vec![st.bps.clone()]
        };
        for bps in variants {
            let mut k = st.k;
            if t.pcs[k].1 {
                out.push((k, BTreeSet::from(["pause"])));
                continue;
            }
            if !single && k as u64 >= self.srv.max {
                out.push((k, BTreeSet::from(["limit"])));
            }
            loop {
                k += 1;
                let &(pc, term) = t.pcs.get(k).unwrap_or_else(|| {
                    panic!(
                        "the plain simulation of {} is too short",
                        self.progs[st.prog.unwrap()].0.name
                    )
                });
                let mut r = BTreeSet::new();
                if single {
                    r.insert("step");
                }
                if bps.contains(&pc) {
                    r.insert("breakpoint");
                }
                if term {
                    r.insert("pause");
                }
                if !single && k as u64 >= self.srv.max {
                    r.insert("limit");
                }
                if !r.is_empty() {
                    out.push((k, r));
                    break;
                }
            }
        }
        out
    }

    /// Send one request, check its answer and the events it causes.
    pub fn exec(&self, c: &mut Client, st: &mut Sess, r: &Req) -> Result<(), String> {
        let seq = c
            .send(&r.cmd, &r.args)
            .map_err(|e| format!("{}: {e}", r.name))?;
        self.answer(c, st, r, seq)
            .map_err(|e| format!("{}: {e}", r.name))
    }

    pub fn answer(&self, c: &mut Client, ss: &mut Sess, r: &Req, seq: i64) -> Result<(), String> {
        let (ok, body) = c.response(seq, &r.cmd)?;
        let st = &mut ss.st;
        let want = match &r.k {
            K::Launch(_) | K::Threads | K::Noop | K::Disconnect => true,
            K::Fail => false,
            K::Any => ok,
            K::StackRest => st.prog.is_some() || ok,
            K::Bps(p, _) => st.prog == Some(*p),
            _ => st.prog.is_some(),
        };
        if ok != want {
            return Err(format!("response has success = {ok}, expected {want}"));
        }
        if !ok {
            return Ok(());
        }
        match &r.k {
            K::Launch(p) => {
                *st = St {
                    prog: Some(*p),
                    k: 0,
                    bps: std::mem::take(&mut st.bps),
                    stale: true,
                };
                st.stale = !st.bps.is_empty();
            }
            K::ConfDone => {
                let e = c.event("stopped")?;
                let b = &e["body"];
                if b["reason"] != "entry" || b["threadId"] != json!(self.srv.refs.thread) {
                    return Err(format!("expected a stop at entry, got {e}"));
                }
            }
            K::Bps(p, lines) => {
                let pr = &self.progs[*p].0;
                let Some(a) = body["breakpoints"].as_array() else {
                    return Err(format!("no breakpoints in {body}"));
                };
                if a.len() != lines.len() {
                    return Err(format!("{} breakpoints for {} lines", a.len(), lines.len()));
                }
                st.bps.clear();
                st.stale = false;
                ss.ids.clear();
                for (b, l) in a.iter().zip(lines) {
                    let addr = if *l >= 1 {
                        pr.lines.get((*l - 1) as usize).copied().flatten()
                    } else {
                        None
                    };
                    if b["verified"].as_bool() != Some(addr.is_some()) {
                        return Err(format!(
                            "breakpoint on line {l}: {b}, the line has address {addr:x?}"
                        ));
                    }
                    if let Some(addr) = addr {
                        if b["line"].as_i64().is_some_and(|x| x != *l) {
                            return Err(format!(
                                "breakpoint on line {l} is reported on another line: {b}"
                            ));
                        }
                        if let Some(m) = b["message"].as_str() {
                            if hexes(m).into_iter().any(|x| x != addr) {
                                return Err(format!(
                                    "breakpoint on line {l} is at {addr:#x}, reported: {b}"
                                ));
                            }
                        }
                        self.source(pr, &b["source"])?;
                        st.bps.insert(addr);
                        if let Some(id) = b["id"].as_i64() {
                            ss.ids.entry(id).or_default().insert(addr);
                        }
                    }
                }
            }
            K::Next | K::Continue => {
                let single = r.k == K::Next;
                let e = c.event("stopped")?;
                let b = &e["body"];
                let text = b["text"].as_str().unwrap_or("");
                let pc = text
                    .find("pc = ")
                    .and_then(|i| hexes(&text[i..]).first().copied());
                let cyc: Option<usize> = text.find("cycle count = ").and_then(|i| {
                    text[i + 14..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect::<String>()
                        .parse()
                        .ok()
                });
                let (Some(pc), Some(cyc)) = (pc, cyc) else {
                    return Err(format!(
                        "stopped event without program counter and cycle count: {e}"
                    ));
                };
                let desc = b["description"].as_str().unwrap_or("").to_lowercase();
                let ts = self.targets(st, single);
                let show = || format!("{:?}", ts);
                let Some(cand) = ts
                    .iter()
                    .filter(|t| t.0 == cyc)
                    .map(|t| &t.1)
                    .reduce(|a, b| if a.len() > b.len() { a } else { b })
                else {
                    return Err(format!("stopped after {cyc} cycles with reason {}, from cycle {} of {}; expected (cycle, reasons) {}", b["reason"], st.k, self.progs[st.prog.unwrap()].0.name, show()));
                };
                let reason = match b["reason"].as_str().unwrap_or("") {
                    "breakpoint" => "breakpoint",
                    "pause" => "pause",
                    "step" if !single => "limit",
                    "step" => "step",
                    o => return Err(format!("stopped with reason {o}")),
                };
                if reason != "limit" && desc.contains("max cycle")
                    || reason == "limit" && !desc.contains("max")
                {
                    return Err(format!(
                        "stopped event misdescribes the reason {reason}: {e}"
                    ));
                }
                if !cand.contains(reason) {
                    return Err(format!("stopped after {cyc} cycles with reason {}, from cycle {} of {}; expected (cycle, reasons) {}", b["reason"], st.k, self.progs[st.prog.unwrap()].0.name, show()));
                }
                let t = &self.progs[st.prog.unwrap()].1;
                if t.pcs[cyc].0 != pc {
                    return Err(format!("stopped event reports pc {pc:#x} after {cyc} cycles, a plain simulation has {:#x}", t.pcs[cyc].0));
                }
                if b["threadId"] != json!(self.srv.refs.thread) {
                    return Err(format!("stopped event of another thread: {e}"));
                }
                if reason == "breakpoint" {
                    let ids: Vec<i64> = b["hitBreakpointIds"]
                        .as_array()
                        .map(|a| a.iter().filter_map(|x| x.as_i64()).collect())
                        .unwrap_or_default();
                    if !st.stale
                        && (ids.is_empty()
                            || ids
                                .iter()
                                .any(|i| !ss.ids.get(i).is_some_and(|s| s.contains(&pc))))
                    {
                        return Err(format!(
                            "stop at pc {pc:#x} names breakpoints {ids:?}, set were {:x?}",
                            ss.ids
                        ));
                    }
                } else if b["hitBreakpointIds"]
                    .as_array()
                    .is_some_and(|a| !a.is_empty())
                {
                    return Err(format!("stop for another reason names breakpoints: {e}"));
                }
                st.k = cyc;
            }
            K::Threads => {
                if body["threads"].as_array().map(|a| a.len()) != Some(1)
                    || body["threads"][0]["id"] != json!(self.srv.refs.thread)
                {
                    return Err(format!("threads are {body}"));
                }
            }
            K::StackRest => {
                if body["stackFrames"].as_array().map(|a| a.len()) != Some(0) {
                    return Err(format!("frames after the only one: {body}"));
                }
            }
            K::Stack => {
                let (p, t) = &self.progs[st.prog.unwrap()];
                let Some(f) = body["stackFrames"].as_array() else {
                    return Err(format!("no frames in {body}"));
                };
                if f.len() != 1 {
                    return Err(format!("{} stack frames", f.len()));
                }
                let f = &f[0];
                if f["id"] != json!(self.srv.refs.frame) {
                    return Err(format!("frame {f}"));
                }
                self.source(p, &f["source"])?;
                let pc = t.pcs[st.k].0;
                let line = f["line"].as_i64().unwrap_or(-1);
                let all: Vec<i64> = (0..p.lines.len())
                    .filter(|i| p.lines[*i] == Some(pc))
                    .map(|i| i as i64 + 1)
                    .collect();
                let inst: Vec<i64> = all
                    .iter()
                    .copied()
                    .filter(|l| p.inst[*l as usize - 1])
                    .collect();
                let want = if inst.is_empty() { &all } else { &inst };
                if !want.is_empty() && !want.contains(&line) {
                    return Err(format!("stack trace shows line {line} of {}, pc {pc:#x} after {} cycles is line {want:?}", p.name, st.k));
                }
            }
            K::Scopes => {
                let (p, t) = &self.progs[st.prog.unwrap()];
                let Some(a) = body["scopes"].as_array() else {
                    return Err(format!("no scopes in {body}"));
                };
                let mut want = vec!["Registers".to_string()];
                want.extend(t.full[0].stages.iter().map(|s| s.0.clone()));
                let got: Vec<String> = a
                    .iter()
                    .map(|s| s["name"].as_str().unwrap_or("").to_string())
                    .collect();
                if got != want {
                    return Err(format!("scopes are {got:?}, expected {want:?}"));
                }
                let mut seen = BTreeSet::new();
                for s in a {
                    self.source(p, &s["source"])?;
                    let v = s["variablesReference"].as_i64().unwrap_or(0);
                    if v <= 0 || !seen.insert(v) {
                        return Err(format!("scopes share a reference: {body}"));
                    }
                }
                if seen != self.srv.refs.vars.iter().copied().collect() {
                    return Err(format!("the references of the scopes change: {seen:?}"));
                }
            }
            K::Vars(i) => {
                let (p, t) = &self.progs[st.prog.unwrap()];
                let s = t.at(st.k);
                let Some(a) = body["variables"].as_array() else {
                    return Err(format!("no variables in {body}"));
                };
                let got: Vec<(String, String)> = a
                    .iter()
                    .map(|v| {
                        (
                            v["name"].as_str().unwrap_or("").to_string(),
                            v["value"].as_str().unwrap_or("").to_string(),
                        )
                    })
                    .collect();
                if *i == 0 {
                    let g: Vec<(String, u64)> = got
                        .iter()
                        .map(|(n, v)| {
                            (
                                n.trim_start_matches('%').to_lowercase(),
                                num(v).unwrap_or(u64::MAX - 7),
                            )
                        })
                        .collect();
                    let w: Vec<(String, u64)> = (0..16)
                        .map(|r| {
                            (
                                REG_NAMES[r].trim_start_matches('%').to_lowercase(),
                                s.regs[r],
                            )
                        })
                        .collect();
                    if g.len() != 16 || (0..15).any(|r| g[r] != w[r]) || g[15].1 != w[15].1 {
                        return Err(format!("registers after {} cycles of {} are shown as {got:?}, a plain simulation has {:x?}", st.k, p.name, s.regs));
                    }
                } else {
                    let (n, want) = &s.stages[i - 1];
                    let mut g = got.clone();
                    let mut w = want.clone();
                    g.sort();
                    w.sort();
                    if g != w {
                        return Err(format!("stage {n} after {} cycles of {} is shown as {got:?}, a plain simulation has {want:?}", st.k, p.name));
                    }
                }
            }
            K::Noop | K::Any | K::Fail => {}
            K::Disconnect => {
                c.closed()?;
                ss.over = true;
            }
        }
        Ok(())
    }

    fn source(&self, p: &Prog, v: &Value) -> Result<(), String> {
        let real = |s: &str| std::path::Path::new(&self.dir).join(s).canonicalize().ok();
        let same = |s: &str| s == p.path || !p.path.starts_with('/') && s.ends_with(&format!("/{}", p.path)) || s.starts_with('/') && real(s).is_some() && real(s) == real(&p.path);
        if !v["path"].as_str().is_some_and(same) || v["name"].as_str().is_some_and(|n| n != p.name) {
            return Err(format!("source is {v}, the launched program is {}", p.path));
        }
        Ok(())
    }

    pub fn fresh(&self) -> Result<(Client, Sess), String> {
        let mut c = Client::connect(self.srv.port)?;
        c.initialize()?;
        Ok((c, Sess::default()))
    }

    /// A whole session: initialize, the requests, disconnect.
    pub fn session(&self, reqs: &[Req]) -> Result<Sess, String> {
        let (mut c, mut s) = self.fresh()?;
        for r in reqs {
            self.exec(&mut c, &mut s, r)?;
            if s.over {
                return Ok(s);
            }
        }
        self.exec(&mut c, &mut s, &self.disconnect())?;
        Ok(s)
    }

    /// Report what a failed session looks like.
    pub fn violation(&self, ctx: &Ctx, key: &str, reqs: &[Req], what: String) {
        let names: Vec<&str> = reqs.iter().map(|r| r.name.as_str()).collect();
        let mut progs: BTreeMap<String, String> = BTreeMap::new();
        for r in reqs {
            if let K::Launch(p) | K::Bps(p, _) = &r.k {
                progs.insert(self.progs[*p].0.name.clone(), self.progs[*p].0.text.clone());
            }
        }
        let e = self.srv.stderr();
        ctx.violation(Viol::new(
            format!("{} (--max-cpu-cycle {}), session {names:?}: {what}{}{e}", self.srv.arch, self.srv.max, if e.is_empty() { "" } else { "; server: " }),
            key,
            json!({"arch": self.srv.arch, "max_cpu_cycle": self.srv.max, "requests": reqs.iter().map(|r| json!({"command": r.cmd, "arguments": r.args})).collect::<Vec<_>>(), "programs": progs, "what": what}),
        ));
    }
}

/// Client-side state of a session.
#[derive(Clone, Default)]
pub struct Sess {
    pub st: St,
    pub ids: BTreeMap<i64, BTreeSet<u64>>,
    pub over: bool,
}

pub fn hexes(s: &str) -> Vec<u64> {
    let mut o = vec![];
    let mut r = s;
    while let Some(i) = r.find("0x") {
        r = &r[i + 2..];
        let h: String = r.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        if let Ok(v) = u64::from_str_radix(&h, 16) {
            o.push(v);
        }
    }
    o
}

fn num(s: &str) -> Option<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => s
            .parse::<u64>()
            .ok()
            .or(s.parse::<i64>().ok().map(|x| x as u64)),
    }
}

pub const REG_NAMES: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13",
    "r14", "rnone",
];
