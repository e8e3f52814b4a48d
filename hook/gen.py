#!/usr/bin/env python3
"""Writes /verif/hook/gen.rs: architectures compiled into the simulator crate for C10 to C13 and C28.

The HCL text of every architecture is also exported as a string, which the checks interpret with their own
reference interpreter (harness/src/refhcl.rs)."""
import itertools, os

HW = {}
HW["src"] = """
    crate::define_units! {
        Source src {
            .input()
            .output(p: bool, q: bool, r: bool, s: bool, x: u8, y: u8, z: u8, u: u64, v: u64)
            mem: MemData
        } {
            let m = mem.read();
            *p = m[0] != 0; *q = m[1] != 0; *r = m[2] != 0; *s = m[3] != 0;
            *x = m[4]; *y = m[5]; *z = m[6];
            *u = u64::from_le_bytes(m[8..16].try_into().unwrap()); *v = u64::from_le_bytes(m[16..24].try_into().unwrap());
        }
%s
    }
    impl std::fmt::Display for Units {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
    }
    impl HardwareUnits for Units {
        fn init(memory: MemData) -> Self { Self { src: Source { mem: memory.clone() }, %s } }
        fn register_file(&self) -> RegFile { [0; 16] }
    }
"""
def hw_mod(name, units, init):
    return f"pub mod {name} {{\n    #![allow(unused, non_snake_case)]\n    use crate::framework::{{HardwareUnits, MemData}};\n    use crate::isa::RegFile;\n{HW['src'] % (units, init)}}}\n"

N_B, N_Y, N_W = 8, 24, 8
SINK = "        Sink snk {\n            .input(" + ", ".join([f"b{i}: bool" for i in range(N_B)] + [f"y{i}: u8" for i in range(N_Y)] + [f"w{i}: u64" for i in range(N_W)]) + ")\n            .output()\n            mem: MemData\n        } {\n            let mut m = mem.write();\n"
SINK += "".join(f"            m[0x100 + {i}] = b{i} as u8;\n" for i in range(N_B))
SINK += "".join(f"            m[0x120 + {i}] = y{i};\n" for i in range(N_Y))
SINK += "".join(f"            m[{0x140 + 8*i}..{0x148 + 8*i}].copy_from_slice(&w{i}.to_le_bytes());\n" for i in range(N_W))
SINK += "            m[0x200] = m[0x200].wrapping_add(1);\n        }\n"
CHAIN = """        Inc inc { .input(a: u64) .output(e: u64) } { *e = a.wrapping_add(1); }
        Mix mix { .input(a: u8, c: bool) .output(e: u8, f: bool) } { *e = a ^ (c as u8); *f = !c; }
        Acc acc { .input(add: u64) .output(sum: u64) total: u64 } { *total = total.wrapping_add(add); *sum = *total; }
        Tie tie { .input() .output(k: u8) } { *k = 0x2a; }
"""

archs = []   # (name, hardware, stages text, hcl text)

def add(name, hw, stages, hcl):
    archs.append((name, hw, stages, hcl))

DUMMY = "Dummy d { k: u8 = 0 }"
HEAD = "#![program_counter = pc0]\n#![termination = term0]\n"
TAIL = "u64 pc0 = src.u;\nbool term0 = false;\n"

# ------------------------------------------------------------------ expressions
exprs = []   # (type, text)

def uniq(l):
    seen, o = set(), []
    for e in l:
        if e not in seen:
            seen.add(e); o.append(e)
    return o

BOOL = ["src.p", "src.q", "src.r", "src.s"]

def level_ok(ops):
    """ops between operands without parentheses: no two comparisons in a row without && or || between"""
    cmp_run = 0
    for o in ops:
        if o in ("==", "!="):
            cmp_run += 1
            if cmp_run > 1: return False
        else:
            cmp_run = 0
    return True

def brackets(n):
    """nested interval sets over n operands: none, one or two intervals of length >= 2 (not the whole)"""
    iv = [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) != (0, n - 1)]
    out = [()]
    out += [(a,) for a in iv]
    for a, b in itertools.combinations(iv, 2):
        nested = (a[0] <= b[0] and b[1] <= a[1]) or (b[0] <= a[0] and a[1] <= b[1])
        apart = a[1] < b[0] or b[1] < a[0]
        if nested or apart:
            out.append((a, b))
    return out

def build(ops, br, nots_o, nots_b):
    """operands with prefixes, brackets with prefixes; None if not in the grammar"""
    n = len(ops) + 1
    # check every group level for chained comparisons
    def groups():
        yield (0, n - 1)
        yield from br
    for g in groups():
        inner = [b for b in br if b != g and g[0] <= b[0] and b[1] <= g[1]]
        # only the direct children hide operators
        seq = [ops[i] for i in range(g[0], g[1]) if not any(b[0] <= i < b[1] for b in inner)]
        # children next to each other act as one operand: comparisons on both sides of it count
        if not level_ok(seq): return None
    t = []
    for i in range(n):
        for k, b in sorted(enumerate(br), key=lambda kb: kb[1][0] - kb[1][1]):
            if b[0] == i: t.append("!" * nots_b[k] + "(")
        t.append("!" * nots_o[i] + BOOL[i])
        for b in br:
            if b[1] == i: t.append(")")
        if i < n - 1: t.append(" " + ops[i] + " ")
    return "".join(t)

OPS = ["&&", "||", "==", "!="]
for e in ["src.p", "!src.p", "!!src.p", "!!!src.p", "true", "false", "!true", "!false", "(src.p)", "!(src.p)", "(!src.p)", "((src.p))", "!((!src.p))"]:
    exprs.append(("bool", e))
for n in (2, 3):
    for ops in itertools.product(OPS, repeat=n - 1):
        for br in brackets(n):
            for no in itertools.product((0, 1), repeat=n):
                for nb in itertools.product((0, 1), repeat=len(br)):
                    e = build(ops, br, no, nb)
                    if e: exprs.append(("bool", e))
for ops in itertools.product(OPS, repeat=3):
    logic = all(o in ("&&", "||") for o in ops)
    for br in brackets(4):
        pos = [(tuple(int(i == k) for i in range(4)), tuple(0 for _ in br)) for k in range(-1, 4 if logic else 0)]
        if logic: pos += [((0, 0, 0, 0), tuple(int(i == k) for i in range(len(br)))) for k in range(len(br))]
        for no, nb in pos:
            e = build(ops, br, no, nb)
            if e: exprs.append(("bool", e))
# comparisons and membership on numbers
rels = []
for a in ["src.x", "xs", "src.y"]:
    for b in ["src.y", "ys", "0", "1", "255", "0x0f", "0b101", "2u8", "NOP", "RNONE", "zs"]:
        if a != b:
            for o in ("==", "!="): rels.append(f"{a} {o} {b}")
rels += [f"{a} {o} {b}" for a in ("3", "RSP", "0x7f") for o in ("==", "!=") for b in ("src.x", "xs")]
rels += [f"{a} {o} {b}" for a in ("src.u", "us") for o in ("==", "!=") for b in ("src.v", "vs", "0", "0xffffffffffffffff", "0x8000000000000000", "256", "1u64")]
rels += [f"({a}) {o} ({b})" for a, b in (("src.x", "src.y"), ("src.u", "src.v")) for o in ("==", "!=")]
rels += ["src.x in {}"] if False else []
for a in ("src.x", "xs"):
    for l in ("NOP", "HALT", "NOP, HALT", "RSP, RBP, RNONE", "src.y", "ys", "src.y, src.z", "NOP, src.y", "ys, zs, RAX, RNONE", "src.z, src.z", "HALT, NOP, CMOVX, IRMOVQ, OPQ, IOPQ", "RNONE,"):
        rels.append(f"{a} in {{ {l} }}")
rels += ["src.u in { src.v }", "us in { vs, src.u }", "src.v in { us, us }"]
exprs += [("bool", e) for e in rels]
CODES = ["HALT", "NOP", "CMOVX", "IRMOVQ", "RMMOVQ", "MRMOVQ", "OPQ", "JX", "CALL", "RET", "PUSHQ", "POPQ", "IOPQ", "R13", "R14", "RNONE"]
REGN = ["RAX", "RCX", "RDX", "RBX", "RSP", "RBP", "RSI", "RDI", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "RNONE"]
for n in range(1, 17):   # sets of every size, each name of the two families, in either order
    rels.append(f"src.x in {{ {', '.join(CODES[:n])} }}")
    rels.append(f"xs in {{ {', '.join(REGN[16 - n:][::-1])} }}")
rels += [f"src.x == {c}" for c in CODES + REGN] + [f"{c} in {{ src.x, src.y }}" for c in CODES[:13:3] + REGN[::4]]
rels += ["src.x in { ADD }", "src.x in { SUB, AND }", "src.x == XOR"]
exprs += [("bool", e) for e in rels if e not in {x[1] for x in exprs}]
some = ["src.x == src.y", "src.x != 1", "src.x in { NOP, ys }", "src.u == src.v", "ys in { zs, RNONE, xs }"]
for e in some:
    for t in ("!({0})", "({0}) == src.p", "src.p != ({0})", "{0} && src.p", "src.p && {0}", "{0} || src.p", "src.p || {0}", "!src.p && {0}", "{0} || !src.p",
              "src.p && {0} || src.q", "src.p || {0} && src.q", "src.p && ({0} || src.q)", "({0}) in {{ src.p, src.q }}", "!({0}) in {{ src.p }}", "!(!({0}) && src.p)"):
        exprs.append(("bool", t.format(e)))
for a, b in itertools.permutations(some, 2):
    for o in ("&&", "||"): exprs.append(("bool", f"{a} {o} {b}"))
    exprs.append(("bool", f"({a}) == ({b})"))
for l in ("src.q", "src.q, src.r", "src.q, src.r, src.s", "qs, src.p"):
    for a in ("src.p", "!src.p", "!!src.p", "(src.p && src.s)", "!(src.p || src.s)", "ps"):
        for t in ("{0}", "{0} && src.s", "src.s || {0}", "({0}) != src.s"):
            exprs.append(("bool", t.format(f"{a} in {{ {l} }}")))
# longer chains
for n in (5, 6):
    for k in range(2 ** (n - 1)):
        ops = ["&&" if k >> i & 1 else "||" for i in range(n - 1)]
        o = ["src.p", "src.q", "!src.r", "src.s", "src.x == src.y", "src.z != 1"][:n]
        exprs.append(("bool", o[0] + "".join(f" {a} {b}" for a, b in zip(ops, o[1:]))))
# plain values
exprs += [("u8", e) for e in ("src.x", "xs", "7", "255u8", "0xfe", "RNONE", "(src.y)", "((zs))", "OPQ")]
exprs += [("u64", e) for e in ("src.u", "us", "0", "0xffffffffffffffff", "(src.v)", "18446744073709551615", "1_000_000", "0x10u64")]
exprs = uniq(exprs)

# ------------------------------------------------------------------ case lists
cases = []
conds = ["src.p", "src.q && !src.r", "src.x == src.y", "src.x in { NOP, ys }", "src.r || src.s"]
def cl(ty, items, end=""):
    cases.append((ty, "[\n    " + "\n    ".join(f"{a} : {b};" for a, b in items) + end + "\n]"))
vals8 = ["1", "2", "src.x", "src.y", "zs", "RNONE"]
for n in range(0, 5):
    for perm in itertools.permutations(range(5), n):
        if n >= 3 and sum(perm) % 2: continue
        d = ["true", "1", "1u8", "!false", "true || src.p"][(n + sum(perm)) % 5]
        cl("u8", [(conds[k], vals8[(k + i) % 6]) for i, k in enumerate(perm)] + [(d, "0x5a")])
for k, c in enumerate(["true", "1", "false", "0", "2", "src.p"]):
    for c2 in ["true", "1", "3u8"]:
        cl("u8", [(c, "src.x"), (c2, "src.y")])
        cl("u64", [(c, "src.u"), ("src.q", "src.v"), (c2, "us")])
        cl("bool", [(c, "src.q && src.r"), ("src.s", "src.x == src.y"), (c2, "!src.q")])
for i in range(8):
    cl("bool", [("src.p", "true" if i & 1 else "false"), ("src.q", "src.x != src.y" if i & 2 else "ps"), ("true", "true" if i & 4 else "!src.s")])
# cases behind an always-true case, repeated conditions, many cases
cl("u8", [("true", "1"), ("true", "2"), ("src.p", "3")])
cl("u8", [("src.p", "1"), ("src.p", "2"), ("!src.p", "3"), ("true", "4")])
cl("u8", [(f"src.x == {i}", str(200 - i)) for i in range(40)] + [("true", "src.x")])
cl("u64", [(f"src.x in {{ NOP }}", "1"), ("src.p && src.q && src.r && src.s", "2"), ("src.p && src.q && src.r", "3"), ("src.p && src.q", "4"), ("src.p", "5"), ("1", "6")])
# no separator after the last case; a tunnel on some cases
cases.append(("u8", "[ src.p : 3; src.q : 4; true : src.z ]"))
cases.append(("u8", "[ src.p : 3; #[tunnel(T1)] src.q : 4; true : src.z ]"))
cases.append(("u8", "[ #[tunnel(T1)] src.p : 3; #[tunnel(T2)] src.q : 4; #[tunnel(T1)] true : src.z; ]"))
cases.append(("bool", "[ true : src.p ]"))

SHORTS = "bool ps = src.p;\nbool qs = src.q;\nu8 xs = src.x;\nu8 ys = src.y;\nu8 zs = src.z;\nu64 us = src.u;\nu64 vs = src.v;\n"
def signals(prefix, items, per):
    for k in range(0, len(items), per):
        t = HEAD + (SHORTS if k // per % 2 == 0 else "")
        for i, (ty, e) in enumerate(items[k:k + per]):
            t += f"{ty} n{i} = {e};\n"
        t += ("" if k // per % 2 == 0 else SHORTS) + TAIL
        add(f"{prefix}{k // per:02}", "hw_src", DUMMY, t)
signals("e", exprs, 150)
signals("k", cases, 60)

# ------------------------------------------------------------------ wiring
ALIAS = "#![stage_alias(A => a, B => b)]\n"
STG = "StageA a { " + ", ".join(f"f{i}: u8 = {i + 10}" for i in range(12)) + ", g: u64 = 0x1234, h: bool = true }\n        StageB b { " + ", ".join(f"f{i}: u8 = {200 - i}" for i in range(12)) + ", g: u64 = 0xffffffffffffffff, h: bool = false }"
def wiring(name, variant):
    """every combination of destinations of one signal: two unit inputs and two stage fields, in either notation"""
    free_y = [f"snk.y{i}" for i in range(N_Y)]
    free_a = [f"a.f{i}" for i in range(12)]
    free_b = [f"b.f{i}" for i in range(12)]
    sig, sets = [], {"snk": [], "a": [], "b": []}
    k = 0
    combos = [c for c in itertools.product((0, 1, 2), repeat=3) if any(c)]   # 0 none, 1 arrow, 2 set; for (unit, a, b)
    if variant: combos = combos[::-1]
    srcs = ["src.x", "src.y", "src.z", "A.f0", "B.f1", "A.f5", "mix.e", "tie.k"]
    for n, c in enumerate(combos):
        if (c[0] and not free_y) or (c[1] and not free_a) or (c[2] and not free_b): continue
        arrows = []
        for kind, pool, st in ((c[0], free_y, "snk"), (c[1], free_a, "a"), (c[2], free_b, "b")):
            if not kind: continue
            d = pool.pop(0)
            if kind == 1: arrows.append(d)
            else: sets[st].append((d.split(".")[1], f"t{n}"))
        dest = ""
        if len(arrows) == 1: dest = f" -> {arrows[0]}" if (n + variant) % 3 else f" -> ({arrows[0]})"
        elif arrows: dest = f" -> ({', '.join(arrows)}{',' if n % 2 else ''})"
        s = srcs[n % len(srcs)]
        e = f"[ src.p : {s}; #[tunnel(W{n})] src.q : {srcs[(n + 3) % len(srcs)]}; true : {n}; ]" if n % 2 else s
        sig.append(f"u8 t{n} = {e}{dest};")
    # the rest
    rest = []
    for i, d in enumerate(free_y): rest.append(f"u8 ry{i} = src.x -> {d};")
    for i, d in enumerate(free_a): rest.append(f"u8 ra{i} = B.f{i} -> {d};")
    for i, d in enumerate(free_b): rest.append(f"u8 rb{i} = A.f{i} -> {d};")
    for i in range(N_B): rest.append(f"bool sb{i} = {['src.p', 'A.h', 'B.h', 'mix.f', 'src.q != A.h', 'src.x == B.f2', 'pb', '!pb'][i]} -> snk.b{i};")
    for i in range(N_W): rest.append(f"u64 sw{i} = {['src.u', 'A.g', 'B.g', 'inc.e', 'acc.sum', 'wide', 'wide2', 'src.v'][i]} -> snk.w{i};")
    rest.append("bool pb = A.h && B.h || src.r;")
    rest.append("u64 wide = [ pb : inc.e; 1 : acc.sum; ] -> (a.g, acc.add);" if False else "u64 wide = [ pb : inc.e; 1 : src.v; ] -> (a.g, acc.add);")
    rest.append("u64 wide2 = [ src.s : A.g; 1 : inc.e; ];")
    sets["b"].append(("g", "wide2"))
    rest.append("u64 ia = src.u -> inc.a;")
    rest.append("u8 ma = src.y;")
    rest.append("bool mc = src.x == src.y;")
    rest.append("bool ha = src.p == src.q -> a.h;")
    rest.append("bool hb = mix.f;")
    sets["b"].append(("h", "hb"))
    lines = sig + rest
    if variant:
        lines = lines[::-1]
    # set_input and set_stage anywhere
    stm = []
    h = len(sets["snk"]) // 2
    stm.append("@set_input(snk, { " + ", ".join(f"{a}: {b}" for a, b in sets["snk"][:h]) + " });")
    stm.append("@set_input(snk, { " + ", ".join(f"{a}: {b}" for a, b in sets["snk"][h:]) + ", });")
    stm.append("@set_input(mix, { a: ma, c: mc });")
    stm.append("@set_stage(a, { " + ", ".join(f"{a}: {b}" for a, b in sets["a"]) + " });")
    stm.append("@set_stage(b, { " + ", ".join(f"{a}: {b}" for a, b in sets["b"]) + " });")
    for i, s in enumerate(stm):
        lines.insert((i + 1) * len(lines) // 7 if not variant else 0, s)
    lines.insert(3, ":==: First part :==:")
    lines.insert(len(lines) // 2, ":======: second \"part two\" :=:")
    add(name, "hw_all", STG, ALIAS + HEAD + "\n".join(lines) + "\n" + TAIL)
wiring("w0", 0)
wiring("w1", 1)

# one signal with two or three destinations: every combination (with repetition) of unit input, field of stage a, field
# of stage b, each connected by an arrow or by a directive, so that two ports of one unit, two fields of one stage and
# fields of two stages occur
def fans():
    kinds = [(d, m) for d in ("snk", "a", "b") for m in ("arrow", "set")]
    combos = list(itertools.combinations_with_replacement(kinds, 2)) + list(itertools.combinations_with_replacement(kinds, 3))
    n_arch = 0
    while combos:
        pool = {"snk": [f"y{i}" for i in range(N_Y)], "a": [f"f{i}" for i in range(12)], "b": [f"f{i}" for i in range(12)]}
        srcs = ["src.x", "A.f0", "src.y", "B.f1", "src.z", "mix.e", "A.f11", "B.f11"]
        sig, sets, left = [], [], []
        for c in combos:
            if any(sum(d == x for d, _ in c) > len(pool[x]) for x in pool):
                left.append(c); continue
            n = len(sig)
            arrows, dirs = [], []
            for d, m in c if n % 2 else c[::-1]:
                (arrows if m == "arrow" else dirs).append((d, pool[d].pop(0)))
            dest = ""
            if len(arrows) == 1: dest = f" -> {arrows[0][0]}.{arrows[0][1]}"
            elif arrows: dest = " -> (" + ", ".join(f"{a}.{b}" for a, b in arrows) + ")"
            sig.append(f"u8 t{n} = {srcs[n % 8]}{dest};")
            sets += [(d, f, f"t{n}") for d, f in dirs]
        combos = left
        stm = []
        for d in pool:
            mine = [(f, t) for x, f, t in sets if x == d]
            if mine: stm.append(f"@set_{'input' if d == 'snk' else 'stage'}({d}, {{ " + ", ".join(f"{f}: {t}" for f, t in mine) + " });")
        rest = [f"u8 r{d}{f} = src.x -> {d}.{f};" for d in pool for f in pool[d]]
        rest += [f"bool sb{i} = src.p -> snk.b{i};" for i in range(N_B)] + [f"u64 sw{i} = src.u -> snk.w{i};" for i in range(1, N_W)]
        rest += ["u64 g2 = src.v;", "@set_stage(a, { g: g2 });", "@set_stage(b, { g: g2 });", "@set_input(inc, { a: g2 });", "@set_input(snk, { w0: g2 });", "@set_input(acc, { add: g2 });",
                 "bool h2 = src.q;", "@set_input(mix, { c: h2 });", "@set_stage(b, { h: h2 });", "@set_stage(a, { h: h2 });", "u8 ma = src.y -> mix.a;"]
        lines = [stm + sig + rest, sig + stm + rest, rest + sig + stm][n_arch % 3]
        add(f"wf{n_arch}", "hw_all", STG, ALIAS + HEAD + "\n".join(lines) + "\n" + TAIL)
        n_arch += 1
fans()

# a chain through units and signals, defined in every order of four blocks
blocks = [
    "u64 c1 = src.u -> inc.a;",
    "u64 c2 = [ src.p : inc.e; 1 : src.v; ] -> acc.add;\nbool c3 = c2 == inc.e -> mix.c;",
    "u8 c4 = [ acc.sum == 0 : src.x; c3 : src.y; true : src.z; ] -> mix.a;\nu64 c8 = acc.sum;",
    "u8 c5 = [ mix.f : mix.e; 1 : tie.k; ] -> (a.f0, snk.y0);\nbool c6 = c5 in { c4, src.x } || c3;",
]
KEEP = "\n".join(f"u8 ky{i} = {i} -> snk.y{i};" for i in range(1, N_Y)) + "\n" + "\n".join(f"bool kb{i} = c6 -> snk.b{i};" for i in range(N_B)) + "\n" + "\n".join(f"u64 kw{i} = c2 -> snk.w{i};" for i in range(N_W)) + "\n" + "".join(f"u8 ka{i} = A.f{i} -> a.f{i};\n" for i in range(1, 12)) + "".join(f"u8 kc{i} = A.f{i} -> b.f{i};\n" for i in range(12)) + "u64 kg = B.g -> (a.g, b.g);\nbool kh = B.h -> (a.h, b.h);\n"
for n, perm in enumerate([(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]):
    body = "\n".join(blocks[i] for i in perm)
    t = ALIAS + HEAD + (KEEP + body if n % 2 else body + "\n" + KEEP) + "\n" + TAIL
    add(f"c{n}", "hw_all", STG, t)

# small circuits, for all evaluation orders: (sub-)units with one input and output
add("o0", "hw_chain", DUMMY, HEAD + """u64 i1 = src.u -> inc.a;
u64 a1 = inc.e -> acc.add;
u8 m1 = src.x -> mix.a;
bool m2 = src.p -> mix.c;
u8 r1 = [ mix.f : mix.e; 1 : src.y; ];
u64 r2 = [ src.q : acc.sum; 1 : inc.e; ];
""" + TAIL)
add("o1", "hw_chain", DUMMY, HEAD + """u64 i1 = src.v -> inc.a;
bool m2 = inc.e == src.u -> mix.c;
u8 m1 = [ m2 : src.x; 1 : src.y; ] -> mix.a;
u64 a1 = [ mix.f : inc.e; 1 : src.u; ] -> acc.add;
u64 r2 = acc.sum;
bool r3 = m1 in { src.x, mix.e };
""" + TAIL)
add("o2", "hw_chain", "StageA a { f: u8 = 3, g: u64 = 0 }", "#![stage_alias(A => a)]\n" + HEAD + """u64 i1 = A.g -> inc.a;
u64 a1 = src.u -> (acc.add, a.g);
u8 m1 = A.f -> mix.a;
bool m2 = src.p -> mix.c;
u8 r1 = mix.e -> a.f;
bool r3 = inc.e == acc.sum;
bool r4 = r3 && mix.f;
""" + TAIL)

# termination and program counter from other signals
add("t0", "hw_src", DUMMY, "#![termination = stop]\n#![program_counter = where_]\nbool stop = [ src.p : src.q; 1 : src.x == 255; ];\nu64 where_ = [ src.r : src.v; 1 : src.u; ];\n")

# ------------------------------------------------------------------ cyclic circuits
# one architecture per place where a signal can be used; `{}` is the use. The cycle goes through another signal, or
# through a unit. The third architecture of each reads a pipeline register instead and is fine.
def sites(b, n):
    return [
        ("bool", f"{b}"), ("bool", f"!(!{b})"), ("u8", f"({n})"),
        ("bool", f"{n} == src.x"), ("bool", f"src.x != {n}"), ("bool", f"{n} in {{ src.x, src.y }}"), ("bool", f"src.x in {{ src.y, {n}, src.z }}"),
        ("bool", f"{b} && src.p"), ("bool", f"src.p && src.q && {b}"), ("bool", f"{b} || src.p"), ("bool", f"src.p || src.q || {b}"),
        ("bool", f"src.p && (src.q || !{b})"), ("bool", f"src.p in {{ {b} }}"),
        ("u8", f"[ {b} : 1; true : 2; ]"), ("u8", f"[ src.p : 1; src.q && {b} : 3; true : 2; ]"), ("u8", f"[ src.p : {n}; true : 2; ]"),
        ("u8", f"[ src.p : 1; src.q : 2; true : {n}; ]"), ("u8", f"[ src.p : 1; true : 2; src.q : {n}; ]"), ("u8", f"[ #[tunnel(T)] src.p : {n}; true : 2 ]"),
        ("u64", "[ src.p : inc.e; true : src.u ]"),
    ]
VREST = ["u64 vi = src.u -> inc.a;", "u64 va = src.v -> acc.add;", "u8 vm = src.x -> mix.a;", "bool vc = src.p -> mix.c;"]
def vrest(*drop):
    return "\n".join(l for l in VREST if not any(d in l for d in drop)) + "\n"
VSTG = "StageA a { n: u8 = 1, b: bool = false, w: u64 = 0 }"
VHEAD = "#![stage_alias(A => a)]\n" + HEAD
N_SITES = len(sites("", ""))
for k in range(N_SITES):
    # through another signal
    ty, e = sites("mb", "mn")[k]
    if ty == "u64":
        e = e.replace("inc.e", "mw")
    back = {"bool": "bool mb = src.r == root;\nu8 mn = [ root : 1; true : 2; ];\n", "u8": "u8 mn = [ src.r : root; 1 : src.z; ];\nbool mb = root == src.x;\n", "u64": "u64 mw = root;\n"}[ty]
    add(f"vs{k:02}", "hw_chain", VSTG, VHEAD + f"{ty} root = {e};\n{back}" + vrest() + TAIL)
    # through a unit: mix.f, mix.e (u8), inc.e (u64)
    ty, e = sites("mix.f", "mix.e")[k]
    if ty == "bool":
        d = [" -> mix.c", " -> (a.b, mix.c)", " -> (mix.c, a.b,)", ""][k % 4]
        t = f"bool root = {e}{d};\n" + ("@set_input(mix, { c: root });\n" if not d else "") + vrest("mix.c")
    elif ty == "u8":
        d = [" -> mix.a", " -> (a.n, mix.a)", " -> (mix.a, a.n,)", ""][k % 4]
        t = f"u8 root = {e}{d};\n" + ("@set_input(mix, { a: root });\n" if not d else "") + vrest("mix.a")
    else:
        t = f"u64 root = {e} -> inc.a;\n" + vrest("inc.a")
    add(f"vu{k:02}", "hw_chain", VSTG, VHEAD + t + TAIL)
    # through a pipeline register
    ty, e = sites("A.b", "A.n")[k]
    e = e.replace("inc.e", "A.w")
    d = {"bool": "a.b", "u8": "a.n", "u64": "a.w"}[ty]
    add(f"vr{k:02}", "hw_chain", VSTG, VHEAD + f"{ty} root = {e} -> {d};\n" + vrest() + TAIL)
# a unit input that nothing is connected to (the field of the pipeline register of the same name is)
for k, (drop, extra) in enumerate([("inc.a", ""), ("acc.add", "u64 o = src.u -> a.w;\n"), ("mix.a", "u8 o = src.x -> a.n;\n"), ("mix.c", "bool o = src.p -> a.b;\n"), ("acc.add", "u64 o = acc.sum;\n")]):
    add(f"vm{k:02}", "hw_chain", VSTG, VHEAD + extra + vrest(drop) + TAIL)

# ------------------------------------------------------------------ large definitions
def large():
    big = []
    def sig(ty, e):
        big.append((ty, e))
    # a set of up to 66 names, one of them matters
    for size in (17, 21, 33, 66):
        for pos in sorted({16, 20, 32, size - 2, size - 1}):
            if pos < size:
                l = ["pad"] * size; l[pos] = ["ys", "src.y"][pos % 2]
                sig("bool", f"{['src.x', 'xs'][size % 2]} in {{ {', '.join(l)} }}")
    # case lists of up to 130 cases, one of them matters
    for size in (17, 41, 110):
        for pos in sorted({16, 32, 64, size - 2, size - 1}):
            if pos < size:
                arms = [("src.x == pad", str(i % 200)) for i in range(size)]
                arms[pos] = ("src.p", "zs"); 
                sig("u8", "[ " + " ".join(f"{a} : {b};" for a, b in arms) + " true : src.y; ]")
    # chains of up to 70 operands, one of them differs
    for size in (9, 17, 33, 66):
        for pos in sorted({0, 8, 16, 32, size - 1}):
            if pos < size:
                l = ["src.p"] * size; l[pos] = "src.q"
                sig("bool", [" && ", " || "][(size + pos) % 2].join(l))
                l[pos] = "!src.q"
                sig("bool", " || ".join(a if i % 3 else f"{a} && src.r" for i, a in enumerate(l)))
    for k in (5, 9, 17):
        sig("bool", "!" * k + "src.p"); sig("bool", "(" * k + "src.p || src.q" + ")" * k)
        sig("bool", "!(" * k + "src.p && src.q" + ")" * k); sig("bool", "src.p && (src.q || " * k + "src.r" + ")" * k)
    k, part = 0, 0
    while k < len(big):
        t, n = HEAD + SHORTS + "u8 pad = 77;\n", 0
        while k < len(big) and len(t) < 12000:   # the macro takes quadratic time
            t += f"{big[k][0]} n{n} = {big[k][1]};\n"; k += 1; n += 1
        add(f"x0{part:02}", "hw_src", DUMMY, t + TAIL); part += 1
    # one signal with 36 destinations, by arrows and by directives
    for k in range(2):
        dests = [f"snk.y{i}" for i in range(12 * k, 12 * k + 12)] + [f"a.f{i}" for i in range(12)] + [f"b.f{i}" for i in range(12)]
        if k: dests = dests[::-1]
        b = f"u8 many = [ src.p : src.x; 1 : src.y; ] -> ({', '.join(dests)});\n"
        rest = [f"u8 ry{i} = src.z -> snk.y{i};\n" for i in range(N_Y) if f"snk.y{i}" not in dests]
        rest += [f"bool sb{i} = src.q -> snk.b{i};\n" for i in range(N_B)] + [f"u64 sw{i} = src.u -> snk.w{i};\n" for i in range(N_W)]
        rest += ["u64 gg = src.v -> (a.g, b.g, inc.a, acc.add);\n", "bool hh = src.r -> (a.h, b.h, mix.c);\n", "u8 ma = src.y -> mix.a;\n"] + [f"bool la{i} = A.f{i} == B.f{11 - i};\n" for i in range(12)]
        add(f"x{1 + k}", "hw_all", STG, ALIAS + HEAD + b + "".join(rest) + TAIL)
    # the same by directives
    t = "u8 many = [ src.p : src.x; 1 : src.y; ];\nbool mb = src.q;\nu64 mw = src.u;\nbool mh = src.r;\n"
    t += "@set_input(snk, { " + ", ".join([f"y{i}: many" for i in range(N_Y)] + [f"b{i}: mb" for i in range(N_B)] + [f"w{i}: mw" for i in range(N_W)]) + " });\n"
    for st in "ab":
        t += f"@set_stage({st}, {{ " + ", ".join([f"f{i}: many" for i in range(12)] + ["g: mw", "h: mh"]) + " });\n"
    t += "@set_input(inc, { a: mw });\n@set_input(acc, { add: mw });\n@set_input(mix, { a: many, c: mh });\n"
    t += "".join(f"bool la{i} = A.f{i} == B.f{11 - i};\n" for i in range(12))
    add("x3", "hw_all", STG, ALIAS + HEAD + t + TAIL)
    # a chain through forty units, defined in a scrambled order
    l = ["u64 k0 = src.u -> inc0.a;\n"] + [f"u64 k{i} = [ src.p && src.x == {i} : src.v; 1 : inc{i - 1}.e; ] -> inc{i}.a;\n" for i in range(1, N_INC)]
    # what comes late in a long list still counts as used
    pads = "".join(f"src.x == {90 + i} : src.v; " for i in range(14))
    l = [f"u64 late1 = [ {pads}src.p : inc{N_INC - 1}.e; 1 : src.u; ];\n", f"u64 late2 = [ {pads}1 : inc{N_INC - 2}.e; ];\n", f"u64 late3 = [ {pads}inc{N_INC - 1}.e == src.v : 5; 1 : 6; ];\n",
         f"bool late4 = {'src.q && ' * 12}inc{N_INC - 1}.e == src.u;\n", f"bool late5 = {'src.q || ' * 12}inc{N_INC - 2}.e == src.u;\n", f"bool late6 = src.u in {{ {'us, ' * 12}k{N_INC - 1} }};\nu64 us = src.v;\n",
         f"bool late7 = src.s && {'(src.q || ' * 12}inc{N_INC - 1}.e == src.v{')' * 12};\n"] + l
    l += [f"bool e{i} = inc{i}.e == inc{N_INC - 1 - i}.e;\n" for i in range(N_INC)]
    add("x4", "hw_many", DUMMY, HEAD + "".join(l[i * 37 % len(l)] for i in range(len(l))) + TAIL)
    # a hundred and sixty signals, each using the one defined after it
    l = [f"u8 s{i} = [ src.x == {i % 256} && src.p : src.y; 1 : s{i + 1}; ];\n" for i in range(160)] + ["u8 s160 = src.z;\n"]
    add("x5", "hw_src", DUMMY, HEAD + "".join(l) + TAIL)
    # fourteen stages, and one stage of sixty fields
    n = 14
    stg = "\n        ".join(f"Stage{i} st{i} {{ f: u8 = {100 + i}, g: u64 = {i}, h: bool = {'true' if i % 2 else 'false'} }}" for i in range(n))
    t = "#![stage_alias(" + ", ".join(f"P{i} => st{i}" for i in range(n)) + ")]\n" + HEAD
    for i in range(n):
        t += f"bool stall{i} = src.x == {i};\nbool bub{i} = src.z == {i};\n@set_stage(st{i}, {{ stall: stall{i}, bubble: bub{i} }});\n"
        t += f"u8 f{i} = {'src.y' if i == 0 else f'P{i - 1}.f'} -> st{i}.f;\nu64 g{i} = {f'P{n - 1}.g' if i == n - 1 else 'src.u' if i % 3 else 'src.v'} -> st{i}.g;\nbool h{i} = P{(i + 5) % n}.h != src.p -> st{i}.h;\n"
    add("r1", "hw_src", stg, t + TAIL)
    n = 60
    stg = "StageW w { " + ", ".join(f"f{i}: u8 = {100 + i}" for i in range(n)) + " }"
    t = "#![stage_alias(W => w)]\n" + HEAD + "bool stall = src.p;\nbool bub = src.q;\n"
    t += "".join(f"u8 f{i} = {'src.y' if i == 0 else f'W.f{i - 1}'};\n" for i in range(n))
    t += "@set_stage(w, { " + ", ".join(f"f{i}: f{i}" for i in range(n)) + ", stall: stall, bubble: bub });\n"
    add("r2", "hw_src", stg, t + TAIL)
    # titles of many words
    words = "One two three four five six seven eight nine ten eleven twelve".split()
    t = HEAD
    for i in range(1, 13):
        t += f":{'=' * i}: {' '.join(words[:i])} :{'=' * (14 - i)}:\nu8 a{i} = src.x;\nbool b{i} = a{i} == src.y;\n"
    add("d32", "hw_src", DUMMY, t + TAIL)
N_INC = 40
large()

# ------------------------------------------------------------------ pipeline registers
ctl = ["src.p", "src.q", "src.r", "src.s", "src.x in { NOP }", "src.x in { CMOVX }"]
REGS = """StageA a { f: u8 = 17, g: u64 = 0xfedcba9876543210, h: bool = true, i: u8 = 0, j: bool = false }
        StageB b { f: u8 = RNONE, g: u64 = 1, h: bool = false, i: u8 = 255 }
        StageC c { f: u8 = NOP, g: u64 = 0, h: bool = true, i: u8 = 9 }"""
t = "#![stage_alias(A => a, B => b, C => c)]\n" + HEAD
for st, (s, b) in {"a": (0, 1), "b": (2, 3), "c": (4, 5)}.items():
    t += f"bool st_{st} = {ctl[s]};\nbool bu_{st} = {ctl[b]};\n@set_stage({st}, {{ stall: st_{st}, bubble: bu_{st} }});\n"
t += "u8 fa = src.y -> a.f;\nu8 fb = A.f -> b.f;\nu8 fc = B.f -> c.f;\nu64 ga = src.u -> a.g;\nu64 gb = A.g -> b.g;\nu64 gc = src.v -> c.g;\n"
t += "bool ha = src.u == src.v -> a.h;\nbool hb = A.h -> b.h;\nbool hc = B.h -> c.h;\nu8 iac = src.z;\n@set_stage(a, { i: iac });\n@set_stage(c, { i: iac });\nu8 ib = A.i -> b.i;\nbool ja = C.h -> a.j;\n"
for st, fs in {"A": "fghij", "B": "fghi", "C": "fghi"}.items():
    for f in fs:
        t += f"{ {'f': 'u8', 'g': 'u64', 'h': 'bool', 'i': 'u8', 'j': 'bool'}[f] } see{st}{f} = {st}.{f};\n"
add("r0", "hw_src", REGS, t + TAIL)

# ------------------------------------------------------------------ display
# four signals, a title in every subset of the five gaps; titles of several kinds and lengths, one of them twice
TITLES = [":=: Alpha :=:", ":==: Beta Gamma :======:", ":====================: \"quoted, with: signs = 1\" :==:", ":=: mixed \"in two\" parts :=:", ":===: Beta Gamma :=:"]
DSIG = ["u64 pc0 = src.u;", "bool term0 = src.x == 255;", "u8 zed = [ src.p : zed2; 1 : src.y; ];", "u8 zed2 = src.z;"]
for k in range(32):
    order = DSIG if k % 2 else DSIG[::-1]
    t = "#![program_counter = pc0]\n#![termination = term0]\n"
    for g in range(5):
        if k >> g & 1: t += TITLES[(g + k // 8) % 5] + "\n"
        if g == 2 and k % 4 == 1: t += TITLES[(g + 2) % 5] + "\n"
        if g < 4: t += order[g] + "\n"
    add(f"d{k:02}", "hw_src", DUMMY, t)

# ------------------------------------------------------------------ output
o = ["// Generated by gen.py; do not edit.", "use crate::framework::{CpuSim, MemData, PipeSim, PropOrder};", ""]
o.append(hw_mod("hw_src", "", ""))
o.append(hw_mod("hw_all", CHAIN + SINK, "snk: Sink { mem: memory }, inc: Inc {}, mix: Mix {}, acc: Acc { total: 0 }, tie: Tie {}"))
o.append(hw_mod("hw_many", "".join(f"        Inc{i} inc{i} {{ .input(a: u64) .output(e: u64) }} {{ *e = a.wrapping_add(1); }}\n" for i in range(N_INC)), ", ".join(f"inc{i}: Inc{i} {{}}" for i in range(N_INC))))
o.append(hw_mod("hw_chain", CHAIN, "inc: Inc {}, mix: Mix {}, acc: Acc { total: 0 }, tie: Tie {}"))
for name, hw, stages, hcl in archs:
    o.append(f"""pub mod {name} {{
    #![allow(unused, unused_parens)]
    crate::define_stages! {{
        {stages}
    }}
    sim_macro::hcl! {{
#![hardware = super::{hw}]
{hcl}
    }}
    impl crate::framework::PipeSim<Arch> {{
        fn print_state(&self) {{}}
    }}
    pub const TEXT: &str = r####"{hcl}"####;
    pub const STAGES: &str = r####"{stages}"####;
}}
""")
o.append("pub const NAMES: &[(&str, &str, &str, &str)] = &[")
for name, hw, _, _ in archs:
    o.append(f'    ("{name}", "{hw}", {name}::STAGES, {name}::TEXT),')
o.append("];\n")
o.append("""/// A simulator of an architecture; `f` may rearrange its evaluation order.
pub fn create(kind: &str, mem: MemData, f: &mut dyn FnMut(&mut PropOrder)) -> Option<Box<dyn Watch>> {
    macro_rules! sim {
        ($a:path) => {{
            let mut s = PipeSim::<$a>::new(mem, false);
            f(s.verif_order());
            Box::new(s)
        }};
    }
    Some(match kind {
        "seq_std" => sim!(super::builtin::seq_std::Arch),
        "seq_plus_std" => sim!(super::builtin::seq_plus_std::Arch),
        "pipe_std" => sim!(super::builtin::pipe_std::Arch),""")
for name, *_ in archs:
    o.append(f'        "{name}" => sim!({name}::Arch),')
o.append("""        _ => return None,
    })
}

/// A simulator together with the contents of its pipeline registers.
pub trait Watch: CpuSim {
    fn stages(&self) -> (String, String);
}
impl<T: crate::framework::CpuArch> Watch for PipeSim<T>
where
    PipeSim<T>: CpuSim,
    T::StageState: std::fmt::Debug,
{
    fn stages(&self) -> (String, String) {
        let (a, b) = self.verif_stages();
        (format!("{a:?}"), format!("{b:?}"))
    }
}
""")
here = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(here, "gen.rs"), "w").write("\n".join(o))
print(len(exprs), "expressions,", len(cases), "case lists,", len(archs), "architectures")
