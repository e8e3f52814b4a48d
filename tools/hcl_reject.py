#!/usr/bin/env python3
"""usage: hcl_reject.py BUILD_LOG. The tree builds, but not with the generated architectures: exit 1 with a VIOLATION
line of C12 if the reason is that hcl! refuses or mistypes a definition of the language; exit 2 otherwise."""
import json, os, re, sys
verif = os.environ["VERIF_DIR"]
log = open(sys.argv[1]).read()
gen = open(f"{verif}/hook/gen.rs").read().split("\n")
inside, blocks = False, []
for i, l in enumerate(gen, 1):
    if l.strip().startswith("sim_macro::hcl!"): start, inside = i, True
    elif inside and l == "    }": blocks.append((start, i)); inside = False
bad = []
for e in re.split(r"\n(?=error)", log):
    if not e.startswith("error"): continue
    m = re.search(r"hook/gen\.rs:(\d+):", e)
    if not m: continue
    n = int(m.group(1))
    if any(a <= n <= b for a, b in blocks) and ("proc macro panicked" in e or re.match(r"error\[E(0308|0277|0600|0369)\]", e)):
        bad.append((n, e))
if not bad: sys.exit(2)
n, e = bad[0]
a, b = next(x for x in blocks if x[0] <= n <= x[1])
d = f"{verif}/evidence/replays"
os.makedirs(d, exist_ok=True)
json.dump({"property": "C12", "what": "a definition of the language does not compile", "message": e, "text": "\n".join(gen[a - 1:b])}, open(f"{d}/C12.json", "w"), indent=1)
print("what: a definition of the language does not compile:", e.split("\n")[0], gen[n - 1].strip())
print(f"VIOLATION property=C12 replay={d}/C12.json")
sys.exit(1)
