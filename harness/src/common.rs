//! Reporting, parallel enumeration, hang detection and evidence.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One violation: `key` identifies the failing input, `replay` is the replayable case.
pub struct Viol {
    pub what: String,
    pub key: String,
    pub replay: Value,
}

impl Viol {
    pub fn new(what: impl Into<String>, key: impl Into<String>, replay: Value) -> Self {
        Viol {
            what: what.into(),
            key: key.into(),
            replay,
        }
    }
}

struct Slot {
    busy: bool,
    /// number of the case, to tell a case that lasts from a succession of them
    gen: u64,
    /// the worker's `/proc` entry
    task: String,
    case: Option<Value>,
    img: Option<(String, usize, Vec<u8>)>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    /// distinct implementation/model states compared
    pub states: AtomicU64,
    /// steps / cycles / requests executed
    pub transitions: AtomicU64,
    /// complete model traces replayed against the implementation
    pub traces: AtomicU64,
    pub skipped: AtomicU64,
    pub programs: AtomicU64,
    pub samples: Mutex<Vec<Value>>,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub extra: Mutex<BTreeMap<String, Value>>,
    pub assumptions: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    viols: Mutex<Vec<Viol>>,
    known: Vec<(String, String)>, // (key, text)
    known_hit: Mutex<BTreeMap<String, String>>,
    slots: Mutex<Vec<Arc<Mutex<Slot>>>>,
    finishing: Mutex<bool>,
    verif: String,
    pub hang_secs: AtomicU64,
}

pub const LEVEL: &str = "model_checking";

thread_local! {
    static SLOT: std::cell::RefCell<Option<Arc<Mutex<Slot>>>> = const { std::cell::RefCell::new(None) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn repo_dir() -> String {
    std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into())
}

/// Processor time a thread has used so far.
fn cpu_seconds(stat: &str) -> f64 {
    let Ok(t) = std::fs::read_to_string(stat) else {
        return 0.0;
    };
    let rest = t.rsplit(')').next().unwrap_or_default();
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

impl Ctx {
    pub fn new(id: &str) -> Arc<Ctx> {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let verif = verif_dir();
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{verif}/known_findings.json")) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for k in v["known"].as_array().into_iter().flatten() {
                if k["property"] == id {
                    known.push((
                        k["key"].as_str().unwrap().to_string(),
                        k["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        let ctx = Arc::new(Ctx {
            id: id.to_string(),
            tier,
            seed,
            start: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            skipped: 0.into(),
            programs: 0.into(),
            samples: Default::default(),
            outcomes: Default::default(),
            extra: Default::default(),
            assumptions: Default::default(),
            stop: false.into(),
            capped: false.into(),
            viols: Default::default(),
            known,
            known_hit: Default::default(),
            slots: Default::default(),
            finishing: Mutex::new(false),
            verif,
            hang_secs: AtomicU64::new(40),
        });
        std::panic::set_hook(Box::new(|info| {
            let s = format!("{info}");
            if std::env::var_os("MC_PANIC").is_some() {
                eprintln!("{s}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = s);
        }));
        let c2 = ctx.clone();
        // A case hangs when its thread has used `hang_secs` of processor time on it,
        // or has made no end of it during a much longer time of this process
        // running (a loaded or suspended machine must not look like a hang).
        std::thread::spawn(move || {
            let mut seen: BTreeMap<usize, (u64, f64, u32)> = BTreeMap::new();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let slots: Vec<_> = c2.slots.lock().unwrap().clone();
                let limit = c2.hang_secs.load(Relaxed);
                for s in slots {
                    let g = s.lock().unwrap();
                    let id = Arc::as_ptr(&s) as usize;
                    if !g.busy {
                        seen.remove(&id);
                        continue;
                    }
                    let e = seen.entry(id).or_insert((0, 0.0, 0));
                    if e.0 != g.gen {
                        *e = (g.gen, cpu_seconds(&g.task), 0);
                        continue;
                    }
                    e.2 += 1;
                    if cpu_seconds(&g.task) - e.1 > limit as f64
                        || e.2 as u64 / 2 > (limit * 6).clamp(240, 720)
                    {
                        let case = match &g.img {
                            Some((n, i, b)) => {
                                json!({"family": n, "index": i, "memory_without_trailing_zeros": hex(&b[..b.iter().rposition(|x| *x != 0).map_or(0, |k| k + 1)])})
                            }
                            None => g.case.clone().unwrap_or(Value::Null),
                        };
                        drop(g);
                        c2.violation(Viol::new(
                            "no answer: the code under test does not terminate on this input",
                            "hang",
                            case,
                        ));
                        c2.finish_and_exit();
                    }
                }
            }
        });
        ctx
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn outcome(&self, k: &str, n: u64) {
        if n > 0 {
            *self
                .outcomes
                .lock()
                .unwrap()
                .entry(k.to_string())
                .or_default() += n;
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v);
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    /// Report a violation. Listed findings do not stop the exploration.
    pub fn violation(&self, v: Viol) {
        if let Some((k, t)) = self.known.iter().find(|(k, _)| *k == v.key) {
            self.known_hit.lock().unwrap().insert(k.clone(), t.clone());
            return;
        }
        let mut g = self.viols.lock().unwrap();
        g.push(v);
        self.stop.store(true, SeqCst);
    }

    /// Mark the start of a case (for hang detection).
    pub fn begin(&self, case: impl FnOnce() -> Value) {
        SLOT.with(|s| {
            if let Some(s) = &*s.borrow() {
                let mut g = s.lock().unwrap();
                g.busy = true;
                g.gen += 1;
                g.case = Some(case());
                g.img = None;
            }
        });
    }
    /// The same for a memory image, without building a description.
    pub fn begin_img(&self, fam: &str, idx: usize, img: &[u8]) {
        SLOT.with(|s| {
            if let Some(s) = &*s.borrow() {
                let mut g = s.lock().unwrap();
                g.busy = true;
                g.gen += 1;
                let (n, i, b) = g
                    .img
                    .get_or_insert_with(|| (String::new(), 0, vec![0; img.len()]));
                n.clear();
                n.push_str(fam);
                *i = idx;
                b.copy_from_slice(img);
            }
        });
    }
    pub fn end(&self) {
        SLOT.with(|s| {
            if let Some(s) = &*s.borrow() {
                s.lock().unwrap().busy = false;
            }
        });
    }
    pub fn register_worker(&self) {
        let s = Arc::new(Mutex::new(Slot {
            busy: false,
            gen: 0,
            task: std::fs::read_link("/proc/thread-self")
                .map(|p| format!("/proc/{}/stat", p.display()))
                .unwrap_or_default(),
            case: None,
            img: None,
        }));
        self.slots.lock().unwrap().push(s.clone());
        SLOT.with(|x| *x.borrow_mut() = Some(s));
    }

    /// Exhaustively run `f(i)` for all i in 0..n on all cores, stop early on a violation.
    pub fn par<F>(self: &Arc<Self>, n: usize, f: F)
    where
        F: Fn(usize) + Sync,
    {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(16);
        std::thread::scope(|sc| {
            for _ in 0..workers {
                let next = &next;
                let f = &f;
                let me = self.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        me.register_worker();
                        loop {
                            if me.stopped() {
                                break;
                            }
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n {
                                break;
                            }
                            if let Err(msg) = guard(|| f(i)) {
                                // a panic in the harness itself is an error of the check
                                eprintln!("harness panic in unit {i}: {msg}");
                                std::process::exit(3);
                            }
                            me.end();
                        }
                    })
                    .unwrap();
            }
        });
    }

    pub fn finish_and_exit(&self) -> ! {
        let mut f = self.finishing.lock().unwrap();
        if *f {
            drop(f);
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        *f = true;
        let viols = self.viols.lock().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.states.load(SeqCst)));
        cov.insert("transitions".into(), json!(self.transitions.load(SeqCst)));
        cov.insert(
            "traces_validated_against_impl".into(),
            json!(self.traces.load(SeqCst)),
        );
        let pr = self.programs.load(SeqCst);
        if pr > 0 {
            cov.insert("distinct_programs_executed".into(), json!(pr));
        }
        cov.insert(
            "cases_outside_domain_skipped".into(),
            json!(self.skipped.load(SeqCst)),
        );
        cov.insert(
            "exhaustive".into(),
            json!(viols.is_empty() && !self.capped.load(SeqCst)),
        );
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        let oc = self.outcomes.lock().unwrap();
        cov.insert("distinct_outcomes".into(), json!(oc.len()));
        cov.insert(
            "outcomes".into(),
            json!(oc.iter().take(60).collect::<BTreeMap<_, _>>()),
        );
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": LEVEL,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": (self.start.elapsed().as_secs_f64()*1000.0).round()/1000.0,
            "violations": viols.len(),
        });
        let dir = format!("{}/evidence", self.verif);
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(
            format!("{dir}/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        unsilence();
        for (k, t) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, t, k);
        }
        let mut code = 0;
        if let Some(v) = viols.first() {
            let rdir = format!("{dir}/replays");
            std::fs::create_dir_all(&rdir).ok();
            let path = format!("{rdir}/{}.json", self.id);
            let r = json!({"property": self.id, "what": v.what, "key": v.key, "case": v.replay});
            std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").ok();
            println!("what: {}", v.what);
            println!("key: {}", v.key);
            println!("VIOLATION property={} replay={}", self.id, path);
            code = 1;
        } else {
            println!(
                "OK property={} states={} transitions={} traces={} skipped={} outcomes={} wall={:.1}s",
                self.id,
                self.states.load(SeqCst),
                self.transitions.load(SeqCst),
                self.traces.load(SeqCst),
                self.skipped.load(SeqCst),
                oc.len(),
                self.start.elapsed().as_secs_f64()
            );
        }
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(code)
    }
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, flags: i32, ...) -> i32;
    fn close(fd: i32) -> i32;
}

/// The real standard output while that of the code under test goes to the null device.
static SAVED: Mutex<Option<i32>> = Mutex::new(None);

/// Send the output of the code under test to the null device while `f` runs.
pub fn silenced<R>(f: impl FnOnce() -> R) -> R {
    use std::io::Write;
    std::io::stdout().flush().ok();
    {
        let mut s = SAVED.lock().unwrap();
        assert!(s.is_none());
        unsafe {
            *s = Some(dup(1));
            let null = open(c"/dev/null".as_ptr() as *const u8, 1);
            dup2(null, 1);
            close(null);
        }
    }
    let r = f();
    unsilence();
    r
}

fn unsilence() {
    use std::io::Write;
    if let Some(old) = SAVED.lock().unwrap().take() {
        std::io::stdout().flush().ok();
        unsafe {
            dup2(old, 1);
            close(old);
        }
    }
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// All words over 0..base of length len, by index.
pub fn word(mut idx: usize, base: usize, len: usize, out: &mut Vec<usize>) {
    out.clear();
    for _ in 0..len {
        out.push(idx % base);
        idx /= base;
    }
    out.reverse();
}

/// Numeric constants that occur in the sources under test. They join the value alphabets, so that a branch
/// on a particular constant is a boundary of the explored domain.
pub fn mined() -> Vec<u64> {
    fn walk(d: &std::path::Path, out: &mut std::collections::BTreeSet<u64>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs" || x == "pest") {
                let Ok(t) = std::fs::read_to_string(&p) else {
                    continue;
                };
                mine_text(&t, out);
            }
        }
    }
    let mut out = Default::default();
    for d in ["sim/src", "sim_macro/src", "debugger/src"] {
        walk(&std::path::Path::new(&repo_dir()).join(d), &mut out);
    }
    out.into_iter().collect()
}

fn mine_text(t: &str, out: &mut std::collections::BTreeSet<u64>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit()
            && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_'))
        {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let mut s: String = t[i..j].replace('_', "");
            for suf in ["usize", "u64", "i64", "u32", "i32", "u16", "u8", "isize"] {
                if let Some(x) = s.strip_suffix(suf) {
                    s = x.to_string();
                    break;
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = s.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else {
                s.parse::<u64>().ok()
            };
            if let Some(v) = v {
                out.insert(v);
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

/// Formats every log record and throws it away: what a verbose run does.
struct Sink;

impl tracing::field::Visit for Sink {
    fn record_debug(&mut self, _: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        std::hint::black_box(format!("{value:?}").len());
    }
}

impl tracing::Subscriber for Sink {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, s: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        s.record(&mut Sink);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        r.record(&mut Sink);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        e.record(&mut Sink);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

/// Run with every log record evaluated, as under -vvv.
pub fn logged<R>(f: impl FnOnce() -> R) -> R {
    tracing::subscriber::with_default(Sink, f)
}
