#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: makes /verif/seeded/<id>/ from definitions, each confirmed in a scratch copy of
/repo (compiles, the stable tests pass, the demonstration passes without and fails with the change).

DEFS.py defines BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], rs=... | sh=...)}."""
import json, os, runpy, shutil, subprocess, sys
REPO, OUT, W = "/repo", os.path.join(os.path.dirname(os.path.abspath(__file__)), "../seeded"), "/tmp/plant-work"
LIB = '''#!/bin/bash
# Run with the repository as working directory: exit 0 when the property holds for this case.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/" || exit 3
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
geokit = { path = "$repo/geokit" }
[workspace]
T
cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" timeout 280 cargo run -q --offline 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
'''
BIN = '''#!/bin/bash
# Run with the repository as working directory: exit 0 when the property holds for this case.
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo build -q --offline -p geokit --bin sample_s2 >/dev/null 2>&1 || exit 3
s2="$w/target/debug/sample_s2"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    for i in ids:
        b = bugs[i]
        if not os.path.isdir(W):
            sh(f"cp -a {REPO} {W}")
        sh("git checkout -q -- . && git clean -fdq", cwd=W)
        assert sh("git rev-parse HEAD", cwd=W).stdout == sh("git rev-parse HEAD", cwd=REPO).stdout
        d = f"{OUT}/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{W}/geokit/src/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{i}: '{old[:50]}' occurs {s.count(old)} times in {f}"); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d); continue
        open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
        if "rs" in b:
            open(f"{d}/demo.rs", "w").write(b["rs"]); open(f"{d}/demo.sh", "w").write(LIB)
        else:
            for n, t in b.get("files", {}).items():
                open(f"{d}/{n}", "w").write(t)
            open(f"{d}/demo.sh", "w").write(BIN + b["sh"])
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh("CARGO_NET_OFFLINE=true cargo test --offline --workspace --no-run 2>&1 | tail -30", cwd=W)
        sh("CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 timeout 200 cargo test --offline --workspace --no-fail-fast -- --test-threads 8 >/tmp/plant-log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant-log", cwd=W)
        passed = set(json.load(open("/tmp/plant.json"))["passed"])
        missing = [n for n in json.load(open("/opt/vp/BASELINE.json"))["stable"] if n not in passed]
        with_ = sh(f"bash {d}/demo.sh", cwd=W)
        sh("git checkout -q -- .", cwd=W)
        without = sh(f"bash {d}/demo.sh", cwd=W)
        good = not missing and with_.returncode != 0 and without.returncode == 0
        print(f"{i}: {'ok' if good else 'NOT OK'} tests missing {len(missing)} demo with {with_.returncode} without {without.returncode} | {with_.stdout.strip()[-150:]!r}")
        if not good:
            print("   ", missing[:5], r.stdout[-1500:] if len(missing) > 50 else "", without.stdout[-600:])
main()
