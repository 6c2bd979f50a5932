#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough]

1. regenerate the Verus unit(s) of the property from /repo's current source (lib/vx.py) and have
   Verus discharge every obligation; regenerate them once more with `assert(false)` planted at the
   entry of every extracted function and require that each of these is refuted (no vacuous contract);
2. run the bounded companion search of the property against the real crate (harness/);
3. decide:
     all obligations discharged, search quiet          -> exit 0
     the search has a failing input                    -> VIOLATION property=ID replay=..            exit 1
     an obligation fails, no failing input             -> VIOLATION .. no-failing-input-found        exit 1
     the source left what the unit can express (item gone, construct not supported, solver gave up)
                                                       -> UNDECIDED line; the bounded search decides
   and write evidence/ID.json.
"""
import json, os, re, subprocess, sys, threading, time, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vx
from props import PROPS

BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def sh(cmd, timeout, cwd=None, env=None, mem_gb=14):
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=lim, start_new_session=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

# ------------------------------------------------------------------ Verus
UNDEC = re.compile(r"resource limit|rlimit|timed? ?out|not supported|unsupported|does not (yet )?support|non-static function fails to satisfy", re.I)

def verus(path, out_prefix):
    t0 = time.time()
    rc, so, se = sh(["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3"], 600, cwd=os.path.dirname(path))
    try: js = json.loads(so[so.index("{"):])
    except Exception: js = None
    diags = []
    for l in se.split("\n"):
        if l.startswith("{"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error" and d.get("spans") is not None: diags.append(d)
    open(out_prefix + ".log", "w").write("\n".join(d.get("rendered") or d["message"] for d in diags) or se)
    return dict(rc=rc, js=js, diags=diags, wall=time.time() - t0, stderr=se)

def breakdown(js):
    r = {}
    try:
        for m in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                n = f["function"].split("::", 1)[1]
                o = r.get(n)
                r[n] = dict(mode=f.get("mode", f.get("mode:")), ms=f["time-micros"] / 1000 + (o["ms"] if o else 0), ok=bool(f["success"]) and (o["ok"] if o else True))
    except (KeyError, TypeError): pass
    return r

def trusted_scan(text):
    """everything the generated text asks Verus to take on trust"""
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if "assume_specification" in c: out.append(re.sub(r"\s+", " ", c.strip()))
        elif "external_body" in c:
            nxt = next((x.strip() for x in [c.split("external_body", 1)[1]] + lines[i+1:i+6] if re.search(r"\b(fn|struct|enum)\b", x)), "")
            out.append("external_body: " + re.sub(r"\s+", " ", nxt)[:140])
        elif re.search(r"\badmit\s*\(|\bassume\s*\(", c): out.append("ASSUMED in line %d: %s" % (i + 1, c.strip()[:100]))
    return out

_lock = threading.Lock()
def vxbuild(*a, **k):
    with _lock: return vx.build(*a, **k)

def run_unit(name):
    """-> dict(status proved|failed|undecided, ...)"""
    os.makedirs(os.path.join(BUILD, "units"), exist_ok=True)
    tpl = os.path.join(VERIF, "units", name + ".rs")
    out = os.path.join(BUILD, "units", name + ".rs")
    r = dict(unit=name, status="undecided", reason="", fns=[], failures=[], breakdown={}, wall=0.0, trusted=[], rewrites={}, dropped=[], probes=None)
    try: u = vxbuild(tpl, REPO)
    except Exception as e:
        r["reason"] = "extraction: %s: %s" % (type(e).__name__, e); return r
    txt = "\n".join(u.lines); open(out, "w").write(txt)
    r.update(fns=u.fns, rewrites=u.rewrites, dropped=sorted(set(u.dropped)), trusted=trusted_scan(txt))
    v = verus(out, out[:-3]); r["wall"] += v["wall"]
    js = v["js"]; vr = (js or {}).get("verification-results") or {}
    r["breakdown"] = breakdown(js) if js else {}
    if v["rc"] is None: r["reason"] = "verus ran out of time"; return r
    if not vr or vr.get("encountered-vir-error") or ("verified" not in vr):
        r["reason"] = "verus does not accept the text: " + (v["diags"][0]["message"] if v["diags"] else v["stderr"][-300:]); return r
    if vr.get("success"):
        n_exec = sum(1 for f in r["breakdown"].values() if f["mode"] == "exec")
        if vr["verified"] == 0 or (u.fns and n_exec == 0): r["reason"] = "no obligation was generated"; return r
        # vacuity
        try:
            p = vxbuild(tpl, REPO, probe=True); pout = out[:-3] + "_probe.rs"; open(pout, "w").write("\n".join(p.lines))
            want = [i + 1 for i, l in enumerate(p.lines) if l.endswith("// probe")]
            pv = verus(pout, pout[:-3]); r["wall"] += pv["wall"]
            hit = {s["line_start"] for d in pv["diags"] for s in d["spans"] if s.get("is_primary")}
            bad = [l for l in want if l not in hit]
            if "verified" not in (((pv["js"] or {}).get("verification-results")) or {}) or ((pv["js"] or {}).get("verification-results") or {}).get("encountered-vir-error"):
                r["reason"] = "probes: verus does not accept the text: " + (pv["diags"][0]["message"] if pv["diags"] else pv["stderr"][-300:]); return r
            r["probes"] = dict(planted=len(want), refuted=len(want) - len(bad))
            if bad: r["reason"] = "vacuous contract: assert(false) accepted at entry of %s" % [p.org[l-1].get("item") for l in bad]; return r
        except Exception as e:
            r["reason"] = "probe: %s" % e; return r
        r["status"] = "proved"; r["verified"] = vr["verified"]; return r
    # something failed
    und = False
    for d in v["diags"]:
        if d["message"].startswith("aborting"): continue
        ps = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
        if not ps:
            if UNDEC.search(d["message"]): und = True
            continue
        ln = ps[0]["line_start"]; org = u.org[ln-1] if 0 < ln <= len(u.org) else {}
        if d.get("code") or UNDEC.search(d["message"]): und = True
        r["failures"].append(dict(message=d["message"], unit_line=ln, text=u.lines[ln-1].strip()[:160] if ln <= len(u.lines) else "", file=org.get("file"), item=org.get("item"), src_line=org.get("line"), part=org.get("part", "code"), rendered=(d.get("rendered") or "")[:1500]))
    bad = [n for n, f in r["breakdown"].items() if not f["ok"]]
    r["failed_fns"] = bad
    if und or not bad: r["reason"] = "verus gave up: " + (v["diags"][0]["message"] if v["diags"] else "?"); r["status"] = "undecided"
    else: r["status"] = "failed"
    return r

# ------------------------------------------------------------------ harness
_built = {}
PID = None
BIN = {"harness": "vh", "harness_server": "vhs", "harness_repl": "vhr"}
def crate_of(): return PROPS[PID].get("harness", "harness") if PID else "harness"
def build_harness():
    if "b" in _built: return _built["b"]
    crate = crate_of()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, crate), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    feats = PROPS[PID].get("features") if PID else None
    vx.freshen(env["CARGO_TARGET_DIR"], [REPO, os.path.join(VERIF, crate)])
    rc, so, se = sh(["cargo", "build", "--offline", "--quiet"] + (["--features", feats] if feats else []), 600, cwd=os.path.join(VERIF, crate), env=env, mem_gb=28)
    p = os.path.join(BUILD, crate, "debug", BIN[crate])
    _built["b"] = p if rc == 0 else None
    if rc != 0: open(os.path.join(BUILD, "harness.log"), "w").write(se); print("harness does not build:\n" + se[-1500:])
    return _built["b"]

def search(pid, ms, seed=None):
    """-> (stats dict | None, witness (input, what) | None)"""
    b = build_harness()
    if not b: return None, None
    seed = SEED if seed is None else seed
    rc, so, se = sh([b, "search", pid, str(seed), str(ms)], ms / 1000 + 120)
    st, wit = {}, None
    for l in so.split("\n"):
        p = l.split("\t")
        if p[0] == "STATS": st = {k: int(v) for k, v in (x.split("=") for x in p[1:])}
        if p[0] == "WITNESS": wit = (p[1], p[2] if len(p) > 2 else "")
    if rc not in (0, 1) and wit is None:
        # died (stack overflow, out of memory, ..): find the input it died on
        tf = os.path.join(BUILD, "trace_%s.txt" % pid)
        if os.path.exists(tf): os.remove(tf)
        rc2, so2, se2 = sh([b, "trace", pid, str(seed), str(ms * 4), tf], ms / 1000 * 4 + 120)
        if rc2 not in (0, 1) and os.path.exists(tf):
            inp = open(tf, errors="replace").read()
            rc3, _, _ = sh([b, "replay", pid, inp], 60)
            if rc3 not in (0, 1, 2): wit = (inp, "the process dies (status %s)" % rc3)
        if wit is None: print("search of %s ended with status %s\n%s" % (pid, rc, se[-400:])); return None, None
    return st, wit

# ------------------------------------------------------------------ main
def main():
    global PID
    pid = PID = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    known = load_known(pid)
    with ThreadPoolExecutor(4) as ex: units = list(ex.map(run_unit, P.get("units", [])))
    rel = re.compile(P["relevant"]) if P.get("relevant") else None
    kinds = re.compile(P["kinds"]) if P.get("kinds") else None   # the obligations that are this property's, by what they state
    failed = []; undecided = []
    for u in units:
        if u["status"] == "failed":
            ru = P.get("relevant_in", {}).get(u["unit"])   # a unit this property takes only some functions of
            ru = re.compile(ru) if ru else rel
            fns = [f for f in u.get("failed_fns", []) if ru is None or ru.search(f)]
            if kinds:
                u["failures"] = [f for f in u["failures"] if kinds.search(f["message"])]
                fns = sorted({f["item"] or "?" for f in u["failures"]})
            if fns: failed.append((u, fns))
            print("unit %s: failed obligations in %s" % (u["unit"], ", ".join(u.get("failed_fns", []))))
        elif u["status"] == "undecided": undecided.append(u); print("UNDECIDED property=%s unit %s: %s" % (pid, u["unit"], u["reason"]))
    ms = P.get("ms", 6000) if tier == "quick" else P.get("ms_thorough", 90000)
    if failed or undecided: ms = max(ms, P.get("ms_hunt", 45000))
    stats, wit = search(pid, ms)
    viol = []
    if wit is None and (failed or undecided) and stats is not None:
        st2, wit = search(pid, ms, SEED + 1000)
        if st2:
            for k, v in st2.items(): stats[k] = stats.get(k, 0) + v
    code = 0
    rp = os.path.join(VERIF, "replay", pid + ".json")
    if wit:
        k = next((k for k in known if k["input"] == wit[0]), None)
        json.dump(dict(property=pid, input=wit[0], violation=wit[1], failed_obligations=[f for u, _ in failed for f in u["failures"]],
                       replay_cmd="cd /verif/%s && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/build/%s cargo build --offline%s && /verif/build/%s/debug/%s replay %s %s" % (crate_of(), crate_of(), " --features " + P["features"] if P.get("features") else "", crate_of(), BIN[crate_of()], pid, shquote(wit[0]))), open(rp, "w"), indent=1, ensure_ascii=False)
        print("failing input: %s\n  %s" % (wit[0], wit[1]))
        for u, fns in failed: print("failed obligations: %s" % ", ".join(fns))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); code = 1
        viol.append(dict(input=wit[0], what=wit[1]))
    elif failed:
        peer = None
        for q in P.get("peers", []):
            _, w = search(q, 20000)
            if w: peer = (q, w); break
        json.dump(dict(property=pid, input=None, failed_obligations=[f for u, _ in failed for f in u["failures"]], failed_functions=[x for _, fns in failed for x in fns], verifier="verus", search=stats), open(rp, "w"), indent=1)
        if peer:
            print("UNDECIDED property=%s: obligations fail (%s), but the failing input found violates %s: %s -- %s" % (pid, ", ".join(x for _, f in failed for x in f), peer[0], peer[1][0], peer[1][1]))
            undecided += [u for u, _ in failed]
        else:
            for u, _ in failed:
                for f in u["failures"][:6]: print("failed obligation: %s -- %s (%s)" % (f["item"], f["message"], f["text"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)); code = 1
            viol.append(dict(failed_obligations=[x for _, fns in failed for x in fns]))
    elif undecided and stats is None:
        print("no answer for %s: neither the verifier nor the harness accepts the source" % pid); code = 2
    write_evidence(pid, tier, P, units, stats, viol, t0, undecided)
    if code == 0:
        for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        print("%s holds: %s" % (pid, summary(units, stats)))
    sys.exit(code)

def shquote(s): return "'" + s.replace("'", "'\\''") + "'"

def summary(units, stats):
    ok = sum(u.get("verified", 0) for u in units if u["status"] == "proved")
    return "%d obligations discharged over %s; bounded companion: %s" % (ok, [u["unit"] + ":" + u["status"] for u in units], stats)

def load_known(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) input=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid: r.append(dict(input=m.group(2), text=m.group(3)))
    return r

def write_evidence(pid, tier, P, units, stats, viol, t0, undecided):
    obl = dis = 0; fns = []; smt = 0.0; trusted = []; per = {}
    for u in units:
        b = u.get("breakdown", {})
        obl += len(b); dis += sum(1 for f in b.values() if f["ok"]); smt += sum(f["ms"] for f in b.values())
        fns += u["fns"]; trusted += u["trusted"]
        per[u["unit"]] = dict(status=u["status"], reason=u["reason"], functions_under_contract=len(u["fns"]), obligations=len(b), discharged=sum(1 for f in b.values() if f["ok"]),
                              exec_functions=sorted(n for n, f in b.items() if f["mode"] == "exec"), lemmas=sum(1 for f in b.values() if f["mode"] == "proof"),
                              solver_ms=round(sum(f["ms"] for f in b.values())), wall_s=round(u["wall"], 1), vacuity_probes=u.get("probes"), rewrites_applied=u.get("rewrites"), attributes_dropped=u.get("dropped"),
                              backend="Verus 0.2026.09.13 (Z3)")
    proved = bool(units) and all(u["status"] == "proved" for u in units)
    cov = dict(obligations=obl, discharged=dis, checker_cmd="python3 lib/vx.py units/<unit>.rs > build/units/<unit>.rs && verus build/units/<unit>.rs (units: %s)" % ", ".join(P.get("units", [])),
               trusted_base=sorted(set(trusted)) + P.get("trusted", []), functions_under_contract=sorted(set(fns)), units=per, solver_ms=round(smt),
               proved_this_run=proved, undecided=[dict(unit=u["unit"], reason=u["reason"]) for u in undecided],
               bounded_companion=dict(label="bounded: concrete inputs against the real crate, never counted as proved", stats=stats, scope=P.get("bounded", "")))
    ev = dict(property=pid, tier=tier, seed=SEED, level=P.get("level", "proof"), coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=P.get("assumptions", []), violations=viol)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)

if __name__ == "__main__": main()
