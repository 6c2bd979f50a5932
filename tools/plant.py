#!/usr/bin/env python3
"""Confirm planted bugs: plant.py SPECS.py [ID ..]

SPECS.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new[, count])], main=RUST | demo=(files))}.
For each: a scratch copy of /repo is patched, its tests are run, and the demonstration is run against the
unchanged tree (must exit 0) and the patched one (must not).  What is confirmed is written to seeded/<id>/.
"""
import sys, os, subprocess, shutil, json, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/scratch/plant"
DEMO = '''#!/bin/bash
# builds main.rs (beside this script) against the crate in the working directory and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export CARGO_NET_OFFLINE=true
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
prexel = { path = "$repo/prexel", features = ["decimal", "complex", "binary"] }
rust_decimal = { version = "1.2.2", features = ["maths"] }
rust_decimal_macros = "1.2.2"
num-complex = "0.2.4"
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline
'''
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
def sh(c, cwd, t=600):
    return subprocess.run(c, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, timeout=t)
def fresh():
    if not os.path.isdir(W): shutil.copytree("/repo", W, symlinks=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b
def tests():
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", W)
    ok = {x for x in re.findall(r"^test (.*?) \.\.\. ok$", r.stdout, re.M) if "(line" not in x}; bad = set(re.findall(r"^test (.*?) \.\.\. FAILED$", r.stdout, re.M))
    comp = "could not compile" in r.stderr
    return ok, bad, comp, r
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    fresh()
    base_ok, base_bad, comp, r = tests()
    print("baseline", len(base_ok), "ok", len(base_bad), "failed", flush=True)
    for bid in (sys.argv[2:] or ns["BUGS"]):
        b = ns["BUGS"][bid]
        sh("git checkout -q -- .", W)
        try:
            for e in b["edits"]:
                p = os.path.join(W, e[0]); s = open(p).read(); n = s.count(e[1])
                want = e[3] if len(e) > 3 else 1
                if n < 1 or (n != 1 and len(e) <= 3): raise Exception("%s: %d occurrences of %r" % (e[0], n, e[1][:60]))
                if len(e) > 3 and isinstance(e[3], int):   # only the k-th occurrence
                    i = -1
                    for _ in range(e[3]): i = s.index(e[1], i + 1)
                    s = s[:i] + e[2] + s[i + len(e[1]):]
                else: s = s.replace(e[1], e[2])
                open(p, "w").write(s)
        except Exception as x: print(bid, "EDIT FAILED", x); continue
        diff = sh("git diff", W).stdout
        ok, bad, comp, r = tests()
        if comp: print(bid, "DOES NOT COMPILE"); print("\n".join(l for l in r.stderr.split("\n") if "error" in l)[:800]); continue
        lost = base_ok - ok
        if lost: print(bid, "REJECTED, fails", sorted(lost)[:5]); continue
        d = os.path.join(VERIF, "seeded", bid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(b.get("demo", DEMO)); os.chmod(d + "/demo.sh", 0o755)
        for f, t in b.get("files", {"main.rs": b.get("main", "")}).items(): open(d + "/" + f, "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        p1 = sh("bash %s/demo.sh" % d, W)
        sh("git checkout -q -- .", W)
        p0 = sh("bash %s/demo.sh" % d, W)
        good = p0.returncode == 0 and p1.returncode != 0
        print(bid, "CONFIRMED" if good else "BAD DEMO clean=%d patched=%d" % (p0.returncode, p1.returncode), "|", (p1.stderr.strip().split("\n") or [""])[-1][:150], flush=True)
        if not good:
            print(p0.stderr[-1500:] if p0.returncode else "")
            shutil.rmtree(d)
main()
