#!/usr/bin/env python3
"""mutate.py FILE PROP[,PROP]: small mechanical changes to FILE (under geokit/src) of /repo, one at a time; those that
compile and pass the stable tests are given to the checks. Prints one line per mutant. Undoes every change."""
import json, re, subprocess, sys, os
f, props = sys.argv[1], sys.argv[2].split(",")
runs = sys.argv[3:] # extra arguments for the check
P = f"/repo/geokit/src/{f}"
src = open(P).read()
body = src.split("#[cfg(test)]")[0].split("\n")
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" <= ", " > "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
  (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" -= ", " += "), (r" \+= ", " -= "), (r" && ", " || "), (r" \|\| ", " && "),
  (r"\b0\.", "1."), (r"\b1\.", "0."), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b0\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"), (r"\btrue\b", "false"),
  (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\bif (.*) \{", r"if !(\1) {"), (r"\.min\(", ".max("),
  (r"\bSome\((.*)\)", "None"), (r"\bsrc\b", "dst"), (r"\bto_ref\b", "from_ref"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bz\b", "x"), (r"\blon\b", "lat")]
SKIP = eval(os.environ.get("SKIP", "[]"))
muts = []
for i, l in enumerate(body):
    t = l.strip()
    if any(a <= i + 1 <= b for a, b in SKIP): continue
    if t.startswith("//") or t.startswith("use ") or t.startswith("#["):
        continue
    for a, b in RULES:
        for m in re.finditer(a, l):
            n = l[:m.start()] + m.expand(b) + l[m.end():]
            if n != l: muts.append((i, n))
    if t.endswith(";") and not t.startswith(("let ", "use ", "pub ", "fn ", "return", "}", ")", ".", "mod ", "type ", "const ")) and l.startswith("        "):
        muts.append((i, ""))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
T = "CARGO_TARGET_DIR=/tmp/mut-target CARGO_NET_OFFLINE=true"
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
seen = set()
try:
    for i, n in muts:
        if (i, n) in seen: continue
        seen.add((i, n))
        new = list(body); new[i] = n
        open(P, "w").write(src.replace("\n".join(body), "\n".join(new), 1))
        tag = f"{f}:{i+1}: {body[i].strip()}  ->  {n.strip()}"
        if sh(f"cd /repo && {T} cargo build -q --offline --workspace").returncode: continue
        sh(f"cd /repo && {T} RUST_BACKTRACE=0 timeout 100 cargo test --offline --workspace --no-fail-fast -- --test-threads 8 >/tmp/mut-log 2>&1; python3 /opt/vp/results.py /tmp/mut.json cargo:/tmp/mut-log")
        passed = set(json.load(open("/tmp/mut.json"))["passed"])
        if any(s not in passed for s in stable):
            print("tests   ", tag, flush=True); continue
        res = []
        for p in props:
            r = sh(f"cd {here} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {p} {' '.join(runs)}")
            res.append(f"{p}={r.returncode}")
            if r.returncode == 1: break
        print("CAUGHT  " if "=1" in " ".join(res) else "SURVIVED", ",".join(res), tag, flush=True)
finally:
    open(P, "w").write(src)
