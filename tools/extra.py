#!/usr/bin/env python3
"""usage: extra.py [quick|thorough]. C29: architectures that users put into sim/src/architectures/extra.

Every set of files over an alphabet is put into a copy of the repository, which is built, and the tools are asked for
every name. The added architectures are counters whose runs are predicted by a model, and copies of the built-in ones,
which have to behave like the originals."""
import itertools, json, os, re, shutil, socket, subprocess, sys, threading, time, queue
VERIF = os.environ["VERIF_DIR"]; REPO = os.environ.get("REPO_DIR", "/repo")
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
BASE = f"{VERIF}/build/extra"
BUILTIN = ["seq_std", "seq_plus_std", "pipe_std"]
start = time.time()

def wide_sections(w):
    """`w` further sections with 4*w signals each"""
    return [(f"Part {i} of {w}", [(f"p{i}_{j}", i * 1000 + j) for j in range(4 * w)]) for i in range(w)]

def counter(step, cycles, cell, wide=0):
    """counts up by `step`, stops after `cycles` cycles, counts the cycles in a byte of memory"""
    return f'''
mod hw {{
    #![allow(unused, non_snake_case)]
    use crate::framework::{{HardwareUnits, MemData}};
    use crate::isa::RegFile;
    crate::define_units! {{
        Count cnt {{
            .input(d: u64, c: u64)
            .output(n: u64, last: bool)
            mem: MemData, total: u64
        }} {{
            *total = total.wrapping_add(d);
            *n = *total;
            *last = c == {cycles};
            let mut m = mem.write();
            m[{cell}] = m[{cell}].wrapping_add(1);
        }}
    }}
    impl std::fmt::Display for Units {{
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, "total {{:#x}}", self.cnt.total) }}
    }}
    impl HardwareUnits for Units {{
        fn init(memory: MemData) -> Self {{ Self {{ cnt: Count {{ mem: memory, total: 0 }} }} }}
        fn register_file(&self) -> RegFile {{ let mut r = [0; 16]; r[0] = self.cnt.total; r }}
    }}
}}
crate::define_stages! {{
    Regs r {{ v: u64 = {0x40 * step}, c: u64 = 1 }}
}}
sim_macro::hcl! {{
#![hardware = self::hw]
#![program_counter = pc]
#![termination = stop]
#![stage_alias(R => r)]
:==: Counter "{step}" :==:
u64 pc = R.v;
u64 one = {step} -> cnt.d;
u64 now = R.c -> cnt.c;
u64 next = cnt.n -> r.v;
u64 time = [ {" ".join(f"now == {i} : {i + 1};" for i in range(1, cycles))} true : 0; ] -> r.c;
bool stop = cnt.last;
{"".join(f':==: ' + json.dumps(t) + ' :==:' + chr(10) + "".join(f"u64 {n} = [ now == {cycles} : {v + 7}; true : {v}; ];" + chr(10) for n, v in l) for t, l in wide_sections(wide))}}}
impl crate::framework::PipeSim<Arch> {{
    fn print_state(&self) {{}}
}}
'''

# name -> (file text or None for a copy of a built-in one, model)
COUNT = {"aa": (1, 4, 0x203), "aa_b": (3, 7, 0x20a), "Zig9": (5, 3, 0x211), "seq_std2": (9, 5, 0x21c), "zig9": (6, 2, 0x22a), "q": (2, 1, 0x224), "_u": (4, 6, 0x235), "wide": (7, 4, 0x249, 12)}
COPY = {"my_seq": "seq_std", "my_seq_plus": "seq_plus_std", "my_pipe": "pipe_std"}

PROG = """    irmovq $0x300, %rsp
    irmovq $5, %rcx
    irmovq $1, %rdx
L:  addq %rcx, %rax
    subq %rdx, %rcx
    jne L
    call f
    rmmovq %rax, 0x10(%rsp)
    halt
f:  pushq %rax
    popq %rbx
    addq %rbx, %rbx
    mrmovq (%rsp), %rsi
    addq %rsi, %rdi
    ret
"""

class Bad(Exception): pass
lock = threading.Lock()
stat = {"states": 0, "transitions": 0, "traces": 0, "file sets": 0}
outcomes = {}
def count(k, n=1):
    with lock: outcomes[k] = outcomes.get(k, 0) + n

def strip(b):
    return re.sub(r"\x1b\[[0-9;]*[A-Za-z]", "", b.decode("utf-8", "replace"))

def run(cmd, cwd, t=30):
    p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t)
    return p.returncode, strip(p.stdout), strip(p.stderr)

def clean(t):
    return [l for l in t.split("\n") if not re.match(r"\s*(INFO|DEBUG|TRACE|WARN|ERROR) ", l)]

def check_counter(name, tool, cwd):
    step, cycles, cell = COUNT[name][:3]
    rc, out, err = run([tool, "-A", name, "p.ys"], cwd)
    if rc != 0 or "panicked" in err: raise Bad(f"ysim -A {name} fails: exit status {rc}: {err.strip()[:300]}")
    pcs = [int(x, 16) for x in re.findall(r"^PC = 0x([0-9a-f]+)", out, re.M)]
    want = [0x40 * step] + [step * i for i in range(1, cycles)]
    if pcs != want: raise Bad(f"ysim -A {name} shows the program counters {pcs[:12]}, the architecture in {name}.rs gives {want}")
    tot = [int(x, 16) for x in re.findall(r"^total 0x([0-9a-f]+)", out, re.M)]
    if tot != [step * i for i in range(1, cycles + 1)]: raise Bad(f"ysim -A {name} shows the totals {tot[:12]}, the architecture in {name}.rs counts by {step}")
    cost = re.findall(r"\[Cycle (\d+) \(\*(\d+)\)\]", out)
    if cost != [(str(i), "2") for i in range(1, cycles + 1)]: raise Bad(f"ysim -A {name} heads the cycles {cost[:12]}")
    diff = [l for l in clean(out) if " -> " in l]
    w = cell & ~7; v = bytearray(8); v[cell & 7] = cycles
    if diff != [f"0x{w:04x}: {'00' * 8} -> {v.hex()}"]: raise Bad(f"ysim -A {name} changes memory as {diff[:4]}")
    with lock: stat["states"] += cycles; stat["transitions"] += cycles; stat["traces"] += 1
    count("counters run")

def check_copy(name, tool, cwd):
    orig = COPY[name]
    a = run([tool, "-A", name, "p.ys"], cwd); b = run([tool, "-A", orig, "p.ys"], cwd)
    if a[0] != b[0] or clean(a[1]) != clean(b[1]): raise Bad(f"{name}, a copy of {orig}, runs a program differently: exit status {a[0]} and {b[0]}: {a[2].strip()[:200]}")
    a = run([tool, "-A", name, "-I"], cwd); b = run([tool, "-A", orig, "-I"], cwd)
    pick = lambda t: [l for l in t.split("\n") if l.startswith("lv.")]
    if a[0] != 0 or pick(a[1]) != pick(b[1]): raise Bad(f"the information about {name}, a copy of {orig}, differs from that about {orig}")
    n = b[1].count("lv.")
    with lock: stat["states"] += n; stat["transitions"] += n; stat["traces"] += 2
    count("copies run")

def refused(cmd, cwd, what):
    try:
        rc, out, err = run(cmd, cwd, 5)
    except subprocess.TimeoutExpired:
        raise Bad(f"{what} does not exist as an architecture and is not refused: {' '.join(cmd[1:])}")
    if rc == 0 or rc < 0 or "panicked" in err or rc == 101: raise Bad(f"{what} does not exist as an architecture and is not refused: {' '.join(cmd[1:])} gives exit status {rc} {err.strip()[:200]}")
    if "[Cycle" in out: raise Bad(f"{what} does not exist as an architecture, but a program is run")
    count("unknown names")

class Dap:
    def __init__(self, port):
        for i in range(200):
            try: self.s = socket.create_connection(("127.0.0.1", port), 5); break
            except OSError:
                if i == 199: raise Bad("ydb does not listen")
                time.sleep(0.02)
        self.f = self.s.makefile("rb"); self.n = 0
    def ask(self, cmd, **args):
        self.n += 1
        b = {"seq": self.n, "type": "request", "command": cmd}
        if args: b["arguments"] = args
        b = json.dumps(b).encode()
        self.s.sendall(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        while True:
            n = 0
            while True:
                l = self.f.readline()
                if not l: raise Bad(f"ydb closes the connection at {cmd}")
                if not l.strip():
                    if n: break
                    continue
                if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
            m = json.loads(self.f.read(n))
            if m["type"] == "response":
                if not m["success"]: raise Bad(f"ydb refuses {cmd}: {m.get('message')}")
                return m.get("body")

def check_dap(name, ydb, cwd, port):
    """three cycles in the debugger"""
    step, cycles = COUNT[name][:2]; parts = wide_sections(COUNT[name][3] if len(COUNT[name]) > 3 else 0)
    p = subprocess.Popen([ydb, "--arch", name, "-p", str(port)], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        d = Dap(port)
        d.s.settimeout(10)
        d.ask("initialize", adapterID="x")
        d.ask("launch", program=f"{cwd}/p.ys")
        d.ask("configurationDone")
        for i in range(1, min(cycles, 4) + 1):
            d.ask("next", threadId=1)
            fr = d.ask("stackTrace", threadId=1)["stackFrames"][0]
            sc = d.ask("scopes", frameId=fr["id"])["scopes"]
            if len(sc) != 2 + len(parts) or [x["name"] for x in sc[1:]] != [f"Counter {step}"] + [t for t, _ in parts]: raise Bad(f"ydb --arch {name} shows the scopes {[x['name'] for x in sc]}")
            for x, (t, l) in zip(sc[2:], parts):
                got = sorted((y["name"], int(y["value"], 0)) for y in d.ask("variables", variablesReference=x["variablesReference"])["variables"])
                want = sorted((n, v + 7 * (i == cycles)) for n, v in l)
                if got != want: raise Bad(f"ydb --arch {name} shows {len(got)} signals in '{t}' in cycle {i}, should be {len(want)}: {[(a, b) for a, b in itertools.zip_longest(got, want) if a != b][:3]}")
            v = {x["name"]: x["value"] for x in d.ask("variables", variablesReference=sc[1]["variablesReference"])["variables"]}
            want = {"pc": 0x40 * step if i == 1 else step * (i - 1), "one": step, "now": i, "next": step * i}
            got = {k: int(v.get(k, "-1"), 0) for k in want}
            if got != want: raise Bad(f"ydb --arch {name} shows {got} in cycle {i}, should be {want}")
            with lock: stat["states"] += 1; stat["transitions"] += 1
        count("debugged"); 
        with lock: stat["traces"] += 1
    except socket.timeout:
        raise Bad(f"ydb --arch {name} does not answer")
    finally:
        p.kill(); p.wait()

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

env = dict(os.environ, CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="0", CARGO_BUILD_JOBS="4", CARGO_INCREMENTAL="0")
def copy_repo(to):
    shutil.rmtree(to, ignore_errors=True); os.makedirs(to)
    for d in ["Cargo.toml", "Cargo.lock", "binutils", "sim_macro", "sim", "debugger"]:
        s = f"{REPO}/{d}"
        if os.path.isdir(s): shutil.copytree(s, f"{to}/{d}", ignore=shutil.ignore_patterns("target", ".git"))
        elif os.path.exists(s): shutil.copy2(s, f"{to}/{d}")
def build(repo, target, bins):
    c = ["cargo", "build", "--offline"]
    for b in bins: c += ["--bin", b]
    return sh(c, cwd=repo, env=dict(env, CARGO_TARGET_DIR=target))

# what can lie in the directory besides: none of it is an architecture
NOISE = {"notes.txt": "not rust\n", "sub/inner.rs": "compile_error!(\"sub\");\n", "old.rs.bak": "compile_error!(\"bak\");\n", "readme.md": "# x\n", "dir.rs/x.txt": "a directory\n", "trs": "no suffix\n", "x.rst": "no\n"}

def sets():
    """(architectures, noise)"""
    al = ["aa", "aa_b", "Zig9", "my_pipe"]
    out = []
    for k in range(16):
        s = [a for i, a in enumerate(al) if k >> i & 1]
        out.append((s, sorted(NOISE) if k % 2 == bin(k >> 1).count("1") % 2 else []))
    out.append((["wide", "q"], []))
    out.append((["my_seq", "my_seq_plus", "my_pipe", "seq_std2"], []))
    out.append((list(COUNT) + list(COPY), sorted(NOISE)))
    if tier == "thorough":
        al = [a for a in COUNT if a != "wide"]
        for k in range(1 << len(al)):
            out.append(([a for i, a in enumerate(al) if k >> i & 1], sorted(NOISE)[k % 8:]))
        al = list(COPY)
        for k in range(1, 8):
            out.append(([a for i, a in enumerate(al) if k >> i & 1] + list(COUNT)[:k % 3], []))
        for n in NOISE: out.append((["q"], [n]))
    return out

alone = []
def alone_builds(w, repo, target, bins):
    """whether one counter builds in the place of a built-in architecture, that is, whether the text suits the tree"""
    with lock:
        if not alone:
            t, x = f"{repo}/sim/src/architectures/builtin/seq_std.rs", f"{repo}/sim/src/architectures/extra"
            keep = open(t).read(); away = f"{BASE}/w{w}/away"
            shutil.rmtree(away, ignore_errors=True); os.makedirs(away)
            for f in os.listdir(x):
                if f != "mod.rs": shutil.move(f"{x}/{f}", f"{away}/{f}")
            open(t, "w").write(counter(*COUNT["aa"])); os.utime(f"{x}/mod.rs")
            alone.append(build(repo, target, bins).returncode == 0)
            open(t, "w").write(keep)
            for f in os.listdir(away): shutil.move(f"{away}/{f}", f"{x}/{f}")
        return alone[0]

def one(w, s, noise, i):
    repo, target = f"{BASE}/w{w}/repo", f"{BASE}/w{w}/target"
    ex = f"{repo}/sim/src/architectures/extra"
    for f in os.listdir(ex):
        if f != "mod.rs":
            p = f"{ex}/{f}"
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for a in s:
        if a in COUNT: open(f"{ex}/{a}.rs", "w").write(counter(*COUNT[a]))
        else: shutil.copy(f"{REPO}/sim/src/architectures/builtin/{COPY[a]}.rs", f"{ex}/{a}.rs")
    for n in noise:
        p = f"{ex}/{n}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(NOISE[n])
    os.utime(f"{ex}/mod.rs"); os.utime(f"{repo}/sim/src/lib.rs")
    bins = ["ysim", "ydb"]
    b = build(repo, target, bins)
    if b.returncode != 0:
        log = b.stdout.decode("utf-8", "replace")
        if any(f"architectures/extra/{a}.rs:" in log for a in s if a in COUNT) and not alone_builds(w, repo, target, bins):
            # the counters are written for the interfaces of the present tree: do they build as a single file?
            count("counters that do not build"); return one(w, [a for a in s if a not in COUNT], noise, i) if any(a in COPY for a in s) else None
        if any(a in COPY for a in s) and not any(a in COUNT for a in s):
            count("copies that do not build"); return   # a built-in file may use its surroundings
        if any(a in COPY for a in s):
            return one(w, [a for a in s if a not in COPY], noise, i)
        log = b.stdout.decode("utf-8", "replace")
        raise Bad("a tree with these files does not build: " + " | ".join([l for l in log.split("\n") if l.startswith("error")][:3] or log.split("\n")[-5:]))
    ysim, ydb = f"{target}/debug/ysim", f"{target}/debug/ydb"
    cwd = f"{BASE}/w{w}/run"; shutil.rmtree(cwd, ignore_errors=True); os.makedirs(cwd)
    open(f"{cwd}/p.ys", "w").write(PROG)
    for tool in (ysim, ydb):
        rc, out, err = run([tool, "--help"], cwd)
        t = re.search(r"Architectures:\s*(.*)", out, re.S)
        words = re.findall(r"[A-Za-z0-9_.]+", t.group(1)) if t else []
        if rc != 0 or sorted(words) != sorted(BUILTIN + s): raise Bad(f"{os.path.basename(tool)} --help lists the architectures {words}, should be {BUILTIN + s}")
        count("lists of names")
    for a in s:
        (check_counter if a in COUNT else check_copy)(a, ysim, cwd)
    rc, out, err = run([ysim, "p.ys"], cwd); rc2, out2, _ = run([ysim, "-A", "seq_std", "p.ys"], cwd)
    if rc != 0 or out != out2: raise Bad("without --arch the architecture is not seq_std")
    others = [n for n in list(COUNT) + list(COPY) if n not in s][:4] + [os.path.splitext(n)[0].split("/")[0] for n in noise] + ["extra", "mod", "seq", "", "seq_std ", "SEQ_STD", "aa.rs", "pipe_std2"]
    for n in others:
        if n in s or n in BUILTIN: continue
        refused([ysim, "-A", n, "p.ys"], cwd, repr(n))
        if i % 4 == 0: refused([ysim, "-I", f"--arch={n}"], cwd, repr(n))
    refused([ydb, "--arch", others[0] or "x", "-p", str(20000 + w)], cwd, repr(others[0]))
    cs = [a for a in s if a in COUNT and COUNT[a][1] > 1]
    for k, a in enumerate(cs[:2] if tier == "quick" else cs):
        with socket.socket() as so:
            so.bind(("127.0.0.1", 0)); port = so.getsockname()[1]
        check_dap(a, ydb, cwd, port)
    with lock: stat["file sets"] += 1
    count(f"{len(s)} extra architectures")

def finish(v):
    os.makedirs(f"{VERIF}/evidence/replays", exist_ok=True)
    ev = {"property": "C29", "level": "model_checking", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "wall_s": round(time.time() - start, 3), "violations": len(v),
          "coverage": {"states": stat["states"], "transitions": stat["transitions"], "traces_validated_against_impl": stat["traces"], "file_sets": stat["file sets"], "exhaustive": not v, "distinct_outcomes": len(outcomes), "outcomes": outcomes, "cases_outside_domain_skipped": outcomes.get("copies that do not build", 0) + outcomes.get("counters that do not build", 0),
                       "samples": [{"files": [f"{a}.rs" for a in s], "besides": n} for s, n in sets()[3:7]]},
          "assumptions": ["the tree is rebuilt from the directory's contents (adding a file alone does not make cargo rebuild)", "names that are Rust keywords or built-in names, and file names that are no identifiers, are outside", "the order of the names is open"]}
    json.dump(ev, open(f"{VERIF}/evidence/C29.json", "w"), indent=2)
    if v:
        e, s, noise = v[0]
        json.dump({"property": "C29", "what": e, "files": [f"{a}.rs" for a in s], "besides": noise, "texts": {f"{a}.rs": counter(*COUNT[a]) if a in COUNT else f"copy of {COPY[a]}.rs" for a in s}}, open(f"{VERIF}/evidence/replays/C29.json", "w"), indent=2)
        print(f"what: {e} (files {s}, besides {noise})")
        print(f"VIOLATION property=C29 replay={VERIF}/evidence/replays/C29.json")
        sys.exit(1)
    print(f"OK property=C29 {stat} wall={time.time() - start:.1f}s")
    sys.exit(0)

def main():
    os.makedirs(BASE, exist_ok=True)
    # dependencies, once
    seed = f"{BASE}/seed"
    copy_repo(f"{seed}/repo")
    b = build(f"{seed}/repo", f"{seed}/target", ["ysim", "ydb"])
    if b.returncode != 0:
        sys.stderr.write(b.stdout.decode("utf-8", "replace")[-3000:]); sys.exit(2)
    if sys.argv[1:] == ["setup"]: return
    q = queue.Queue()
    for i, x in enumerate(sets()): q.put((i, x))
    viols, errs = [], []
    def worker(w):
        try:
            os.makedirs(f"{BASE}/w{w}", exist_ok=True)
            copy_repo(f"{BASE}/w{w}/repo")
            if not os.path.isdir(f"{BASE}/w{w}/target"): shutil.copytree(f"{seed}/target", f"{BASE}/w{w}/target", symlinks=True, copy_function=shutil.copy2)
            while not viols:
                try: i, (s, noise) = q.get_nowait()
                except queue.Empty: return
                try: one(w, s, noise, i)
                except Bad as e: viols.append((str(e), s, noise))
        except Exception as e:
            import traceback; errs.append(traceback.format_exc())
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(4)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs and not viols: sys.stderr.write(errs[0]); sys.exit(2)
    finish(viols)
if __name__ == "__main__": main()
