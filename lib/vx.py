"""Mechanical extraction of Rust items from /repo into a Verus file.

A unit template (units/*.rs) is Verus text plus `//@` directives.  Everything outside a directive
block is copied; `//@ extract ... //@ end` is replaced by the named item's current text from /repo,
with contracts inserted and the listed token-level rewrites applied.  What it drops or changes: DESIGN.md.
"""
import re, json, os

class AnchorLost(Exception): pass

# ---------------------------------------------------------------- lexer
class Tok:
    __slots__ = ("k", "s", "a", "b", "line")
    def __init__(s, k, t, a, b, line): s.k, s.s, s.a, s.b, s.line = k, t, a, b, line
    def __repr__(s): return s.s

_id = re.compile(r"[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*")
_num = re.compile(r"[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*")

def lex(src):
    out, i, n, line = [], 0, len(src), 1
    def emit(k, j):
        nonlocal i, line
        out.append(Tok(k, src[i:j], i, j, line))
        line += src.count("\n", i, j); i = j
    while i < n:
        c = src[i]
        if c in " \t\r\n":
            if c == "\n": line += 1
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j); i = j; continue
        m = re.compile(r"(?:b|c|br|cr|r)(#*)\"").match(src, i)
        if m and ("r" in m.group(0).split('"')[0] or src[i] in "bc"):
            pre = m.group(0)
            if "r" in pre:
                j = src.find('"' + m.group(1), m.end()); j = j + 1 + len(m.group(1))
            else:
                j = m.end()
                while src[j] != '"': j += 2 if src[j] == "\\" else 1
                j += 1
            emit("str", j); continue
        if c == '"':
            j = i + 1
            while src[j] != '"': j += 2 if src[j] == "\\" else 1
            emit("str", j + 1); continue
        if c == "'" or (c == "b" and src[i:i+2] == "b'"):
            q = i + (1 if c == "'" else 2)
            if src[q] == "\\":
                j = q + 2
                while src[j] != "'": j += 1
                emit("char", j + 1); continue
            if q + 1 < n and src[q + 1] == "'":
                emit("char", q + 2); continue
            m = _id.match(src, q)
            emit("life", m.end()); continue
        m = re.compile(r"r#([A-Za-z_]\w*)").match(src, i)
        if m:   # a raw identifier: Verus mishandles raw local names, so it is renamed everywhere
            emit("id", m.end()); out[-1].s = "v_raw_" + m.group(1); continue
        m = _id.match(src, i)
        if m: emit("id", m.end()); continue
        m = _num.match(src, i)
        if m:
            j = m.end()
            if j < n and src[j] == "." and not (j + 1 < n and (src[j+1] == "." or src[j+1].isalpha() or src[j+1] == "_")):
                j += 1
            emit("num", j); continue
        emit("p", i + 1)
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def match_close(t, i):
    """index of the delimiter closing t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j].k == "p":
            if t[j].s in OPEN: d += 1
            elif t[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise AnchorLost("unbalanced delimiters")

def tree_end(t, i):
    return match_close(t, i) + 1 if t[i].k == "p" and t[i].s in OPEN else i + 1

def text(ts):
    return " ".join(x.s for x in ts)

def norm(s):
    return text(lex(s))

# ---------------------------------------------------------------- items
class Item:
    def __init__(s, kind, name, toks, attrs, hdr, body):
        s.kind, s.name, s.toks, s.attrs, s.hdr, s.body = kind, name, toks, attrs, hdr, body

def cfg_ok(ts):
    """evaluate the inside of cfg(...): all cargo features on, test off, debug_assertions on"""
    def ev(i):
        n = ts[i].s
        if i + 1 < len(ts) and ts[i + 1].s == "(":
            e = match_close(ts, i + 1); args, j = [], i + 2
            while j < e:
                v, j = ev(j); args.append(v)
                if j < e and ts[j].s == ",": j += 1
            v = {"not": lambda a: not a[0], "all": all, "any": any}[n](args)
            return v, e + 1
        if i + 2 < len(ts) and ts[i + 1].s == "=":
            return n == "feature", i + 3
        return n == "debug_assertions", i + 1
    return ev(0)[0]

def attr_drop(attrs):
    for a in attrs:
        if len(a) > 4 and a[2].s == "cfg":
            if not cfg_ok(a[4:-2]): return True
    return False

MODS = {"pub", "async", "unsafe", "const", "extern", "default"}

def items(t):
    out, i = [], 0
    while i < len(t):
        attrs, st = [], i
        while i + 1 < len(t) and t[i].s == "#" and (t[i+1].s == "[" or (t[i+1].s == "!" and t[i+2].s == "[")):
            o = i + 1 if t[i+1].s == "[" else i + 2
            e = match_close(t, o); attrs.append(t[i:e+1]); i = e + 1
        if i >= len(t): break
        st2 = i; j = i
        while j < len(t):
            if t[j].s == "pub":
                j += 1
                if j < len(t) and t[j].s == "(": j = match_close(t, j) + 1
            elif t[j].s in ("async", "unsafe", "default"): j += 1
            elif t[j].s == "const" and j + 1 < len(t) and t[j+1].s in ("fn", "unsafe"): j += 1
            elif t[j].s == "extern" and j + 1 < len(t) and t[j+1].k == "str": j += 2
            else: break
        if j >= len(t): break
        kw = t[j].s
        if kw in ("fn", "struct", "enum", "trait", "mod", "impl", "type", "const", "static", "use", "union"):
            name = t[j+1].s if kw != "impl" else None
            k = j + 1; depth_angle = 0
            while k < len(t):
                if t[k].s == ";": break
                if t[k].s == "{": break
                if t[k].s in "([": k = match_close(t, k)
                if kw in ("const", "static", "type") and t[k].s == "=":
                    while t[k].s != ";":
                        if t[k].s in OPEN: k = match_close(t, k)
                        k += 1
                    break
                if kw == "use" and t[k].s == "{": k = match_close(t, k)
                k += 1
            if kw == "use":
                k = j
                while t[k].s != ";":
                    if t[k].s in OPEN: k = match_close(t, k)
                    k += 1
            if k >= len(t): raise AnchorLost("item without end")
            if t[k].s == "{":
                e = match_close(t, k); body = (k, e)
                hdr = t[st2:k]; end = e + 1
                b = t[k+1:e]
            else:
                hdr = t[st2:k]; end = k + 1; b = None
            if kw == "impl":
                h = t[j+1:k]
                if h and h[0].s == "<":
                    d = 0
                    for q in range(len(h)):
                        if h[q].s == "<": d += 1
                        elif h[q].s == ">" and not (q and h[q-1].s == "-"):
                            d -= 1
                            if d == 0: h = h[q+1:]; break
                for q in range(len(h)):
                    if h[q].s == "where": h = h[:q]; break
                name = text(h)
            out.append(Item(kw, name, t[st2:end], attrs, hdr, b)); i = end; continue
        # macro_rules! name {..} / name!(..);
        if t[j].k == "id" and j + 1 < len(t) and t[j+1].s == "!":
            k = j + 2; name = t[j].s; kind = "macro_call"
            if name == "macro_rules": kind = "macro_rules"; name = t[k].s; k += 1
            e = match_close(t, k); end = e + 1
            if end < len(t) and t[end].s == ";": end += 1
            out.append(Item(kind, name, t[st2:end], attrs, t[st2:k], t[k+1:e])); i = end; continue
        i = j + 1
    return [x for x in out if not attr_drop(x.attrs)]

def freshen(target, dirs):
    """cargo judges staleness by modification times; a tree laid out anew may carry older ones than the last build.
    When the sources' contents differ from those of the last build in `target`, drop the workspace crates' fingerprints."""
    import hashlib, shutil
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".json")):
                    h.update(os.path.join(r, f).encode()); h.update(open(os.path.join(r, f), "rb").read())
    stamp = os.path.join(target, "sources.sha256")
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return
    for r, ds, fs in os.walk(target):
        if os.path.basename(r) == ".fingerprint":
            for x in list(ds):
                if re.match(r"(prexel|eval|vh|newtypes|dectest|flttest)", x): shutil.rmtree(os.path.join(r, x), ignore_errors=True)
            ds[:] = []
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(h.hexdigest())

_expanded = {}
def expanded(root, crate):
    """the crate's text after macro expansion, by the compiler itself (rustc -Zunpretty=expanded, all features)"""
    import subprocess
    if (root, crate) in _expanded: return _expanded[root, crate]
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = root if crate == "prexel" else os.path.join(verif, crate)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(verif, "build", "expand"), CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    cmd = ["cargo", "+nightly", "rustc", "--offline", "--quiet", "-p", crate, "--lib", "--profile", "check"] + (["--all-features"] if crate == "prexel" else []) + ["--", "-Zunpretty=expanded"]
    freshen(env["CARGO_TARGET_DIR"], [root, d])
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0 or not p.stdout.strip(): raise AnchorLost("macro expansion of %s failed: %s" % (crate, p.stderr[-300:]))
    _expanded[root, crate] = p.stdout
    return p.stdout

class Source:
    cache = {}
    def __init__(s, root): s.root = root; s.files = {}
    def toks(s, f):
        if f not in s.files:
            if f.startswith("expanded:"):
                s.files[f] = lex(expanded(s.root, f[9:])); return s.files[f]
            p = os.path.join(s.root, f)
            if not os.path.exists(p): raise AnchorLost("file %s is gone" % f)
            s.files[f] = lex(open(p, encoding="utf-8").read())
        return s.files[f]
    def find(s, f, path):
        cur = items(s.toks(f)); it = None
        segs = [x.strip() for x in path.split(" / ")]
        for n, seg in enumerate(segs):
            kind, _, name = seg.partition(" ")
            name = norm(name)
            if kind == "closure":
                # the closure passed to the only call of NAME in the body of the item before
                b = it.body if it.body is not None else it.hdr
                f = [(a, e) for a, e in find_all(b, name + " (") if b[e].s in ("|", "||") or (b[e].s == "move" and b[e+1].s in ("|", "||"))]
                if len(f) != 1: raise AnchorLost("%s: closure of `%s` found %d times" % (f, name, len(f)))
                o = f[0][1] - 1; e = match_close(b, o); c = closure([x for x in b[o+1:e] if x.s != "move"])
                if not c or not c[1] or c[1][0].s != "{" or match_close(c[1], 0) < len(c[1]) - 1 - (c[1][-1].s == ","): raise AnchorLost("%s: closure of `%s` has no block" % (f, name))
                bd = c[1][1:match_close(c[1], 0)]
                it = Item("fn", "closure", c[1], [], [], bd); it.params = c[0]; cur = []
                continue
            c = [x for x in cur if x.kind == kind and x.name == name]
            if not c and kind == "impl":   # the same impl with its paths written out (or no longer written out)
                short = lambda t: re.sub(r"(?:::)?(?:\b\w+::)+(?=\w)", "", t.replace(" ", ""))
                c = [x for x in cur if x.kind == kind and short(x.name) == short(name)]
            if len(c) > 1 and kind == "impl" and n + 1 < len(segs):
                nk, _, nn = segs[n+1].partition(" ")
                c = [x for x in c if any(y.kind == nk and y.name == norm(nn) for y in items(x.body or []))]
            if len(c) != 1:
                raise AnchorLost("%s: `%s` found %d times" % (f, path, len(c)))
            it = c[0]; cur = items(it.body) if it.body is not None and n + 1 < len(segs) else []
        return it
    def fn_names(s, f, path):
        cur = items(s.toks(f)) if not path else items(s.find(f, path).body)
        return sorted(x.name for x in cur if x.kind == "fn")

# ---------------------------------------------------------------- token patterns
def compile_pat(p):
    ts = lex(p.replace("$", "\u00a4"))   # metavariable marker survives the lexer as an id char
    return ts

def is_meta(t): return t.s.startswith("\u00a4")

def pat_match(pat, t, i):
    """match pat at t[i:]; returns (end, binds) or None; $x = one or more token trees, lazily"""
    def go(pi, ti, b):
        if pi == len(pat): return ti, b
        p = pat[pi]
        if is_meta(p):
            e = ti; opt = p.s.endswith("_opt")
            if opt:
                r = go(pi + 1, ti, {**b, p.s: []})
                if r: return r
            while e < len(t):
                if t[e].k == "p" and t[e].s in CLOSE: return None
                e = tree_end(t, e)
                r = go(pi + 1, e, {**b, p.s: t[ti:e]})
                if r: return r
            return None
        if ti < len(t) and t[ti].s == p.s: return go(pi + 1, ti + 1, b)
        return None
    return go(0, i, {})

def subst(rep, b):
    out = []
    for x in lex(rep.replace("$", "\u00a4")):
        if is_meta(x):
            if x.s not in b: raise AnchorLost("unbound metavariable " + x.s)
            out += b[x.s]
        else: out.append(Tok(x.k, x.s, 0, 0, 0))
    return out

def rewrite(t, pat, rep):
    """apply everywhere (innermost text re-scanned once per pass until fixpoint, max 20 passes)"""
    p = compile_pat(pat); n = 0
    for _ in range(1 if pat in rep else 20):
        hit = False; out = []; i = 0
        while i < len(t):
            m = pat_match(p, t, i) if (is_meta(p[0]) is False and t[i].s == p[0].s) else None
            if m:
                out += keep_line(subst(rep, m[1]), t[i].line); i = m[0]; n += 1; hit = True
            else: out.append(t[i]); i += 1
        t = out
        if not hit: break
    return t, n

def keep_line(ts, line):
    return [Tok(x.k, x.s, x.a, x.b, x.line or line) for x in ts]

def find_all(t, pat):
    p = compile_pat(pat); r = []
    for i in range(len(t)):
        m = pat_match(p, t, i)
        if m: r.append((i, m[0]))
    return r

def recv_start(t, i):
    """t[i] is the `.` of a method call; index where its receiver (postfix chain) starts"""
    j = i - 1
    def back_group(j):
        d = 0
        while j >= 0:
            if t[j].k == "p":
                if t[j].s in CLOSE: d += 1
                elif t[j].s in OPEN:
                    d -= 1
                    if d == 0: return j
            j -= 1
        raise AnchorLost("unbalanced receiver")
    while True:
        if t[j].k == "p" and t[j].s in (")", "]"):
            j = back_group(j)
            if j > 0 and (t[j-1].k == "id" and t[j-1].s not in ("return","if","match","in","while","else","let") or (t[j-1].k == "p" and t[j-1].s in (")", "]"))):
                j -= 1; continue
            if j > 0 and t[j-1].s == ">":      # turbofish f::<T>(..)
                d = 0; q = j - 1
                while True:
                    if t[q].s == ">": d += 1
                    elif t[q].s == "<":
                        d -= 1
                        if d == 0: break
                    q -= 1
                j = q - 3
                continue
        elif t[j].k == "p" and t[j].s == "?":
            j -= 1; continue
        start = j
        # look left for `.` or `::`
        if start > 0 and t[start-1].s == "." and not (start > 1 and t[start-2].s == "."):
            j = start - 2; continue
        if start > 1 and t[start-1].s == ":" and t[start-2].s == ":":
            j = start - 3; continue
        if start > 1 and t[start-1].s == "!" and t[start].s in OPEN:
            return start - 2
        return start

def rewrite_method(t, name, fn):
    """rewrite every RECV.name(args) through fn(recv_toks, args_list) -> replacement text with tokens"""
    n = 0
    while True:
        for i in range(len(t) - 2):
            if t[i].s == "." and t[i+1].s == name and t[i+2].s == "(":
                e = match_close(t, i + 2); s = recv_start(t, i)
                args = split_args(t[i+3:e])
                rep = fn(t[s:i], args)
                if rep is None: continue
                t = t[:s] + keep_line(rep, t[i].line) + t[e+1:]; n += 1
                break
        else: return t, n

def split_args(ts):
    out, cur, i = [], [], 0
    bar = False
    while i < len(ts):
        if ts[i].s == "|" : bar = not bar
        if ts[i].s == "," and not bar: out.append(cur); cur = []; i += 1; continue
        e = tree_end(ts, i); cur += ts[i:e]; i = e
    if cur: out.append(cur)
    return out

def L(s): return [Tok(x.k, x.s, 0, 0, 0) for x in lex(s)]

def closure(ts):
    """|pat| body  -> (pat, body)"""
    if ts and ts[0].s == "||": return [], ts[1:]
    if not ts or ts[0].s != "|": return None
    for i in range(1, len(ts)):
        if ts[i].s == "|": return ts[1:i], ts[i+1:]
    return None

def m_map_or(recv, args):
    c = closure(args[1]) if len(args) == 2 else None
    if not c:
        return L("( match") + recv + L("{ Some ( v__x ) => ") + args[1] + L("( v__x ) , None =>") + args[0] + L("} )") if len(args) == 2 else None
    return L("( match") + recv + L("{ Some (") + c[0] + L(") =>") + c[1] + L(", None =>") + args[0] + L("} )")

def m_next_if(recv, args):
    # Peekable::next_if(|c| P): peek, test, advance.
    c = closure(args[0])
    if not c and len(args[0]) == 1 and args[0][0].k == "id":
        # next_if(predicate_fn)
        return (L("( match") + recv + L(". peek ( ) { Some ( v__p ) => { if") + args[0] + L("( v__p ) {") + recv + L(". next ( ) } else { None } } , None => None } )"))
    if not c: return None
    return (L("( match") + recv + L(". peek ( ) { Some ( v__p ) => { let") + c[0] + L("= v__p ; if") + c[1] +
            L("{") + recv + L(". next ( ) } else { None } } , None => None } )"))

def m_map(recv, args):
    c = closure(args[0])
    if not c: return None
    return L("( match") + recv + L("{ Some (") + c[0] + L(") => Some (") + c[1] + L(") , None => None } )")

def m_and_then(recv, args):
    c = closure(args[0])
    if c: return L("( match") + recv + L("{ Some (") + c[0] + L(") =>") + c[1] + L(", None => None } )")
    return L("( match") + recv + L("{ Some ( v__x ) =>") + args[0] + L("( v__x ) , None => None } )")

def m_map_err(recv, args):
    c = closure(args[0])
    if not c: return None
    return L("( match") + recv + L("{ Ok ( v__o ) => Ok ( v__o ) , Err (") + c[0] + L(") => Err (") + c[1] + L(") } )")

def m_ok_or_else(recv, args):
    # Option::ok_or_else(|| E)
    if len(args) != 1: return None
    a = args[0]
    if len(a) > 2 and a[0].s == "|" and a[1].s == "|": e = a[2:]
    else: e = a + L("( )")
    return L("( match") + recv + L("{ Some ( v_o ) => Ok ( v_o ) , None => Err (") + e + L(") } )")

METHODS = {"ok_or_else": m_ok_or_else, "map_err": m_map_err, "map_or": m_map_or, "next_if": m_next_if, "map": m_map, "and_then": m_and_then}

# ---------------------------------------------------------------- extraction directives
NOSPACE_BEFORE = set(".,;)]?:")

def render(ts, base_line=None):
    """tokens -> text, one source line per output line"""
    out, prev = [], None
    for x in ts:
        if prev is not None:
            if x.line != prev.line and x.line: out.append("\n")
            else:
                # glue multi-char operators only if they were adjacent in the source
                if prev.b == x.a and prev.b != 0 and prev.k == "p" and x.k == "p": pass
                elif prev.b == x.a and prev.b != 0 : pass
                else: out.append(" ")
        out.append(x.s); prev = x
    return "".join(out)

OPS2 = ["::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "..", "<<", ">>"]

class RTok(Tok):
    __slots__ = ()

def join_ops(ts):
    """make multi-character punctuation single tokens, so that rendering never splits them"""
    out, i = [], 0
    while i < len(ts):
        x = ts[i]
        if x.k == "p" and i + 2 < len(ts) and x.s + ts[i+1].s + ts[i+2].s in ("..=", "<<=", ">>=") and adj(x, ts[i+1]) and adj(ts[i+1], ts[i+2]):
            out.append(Tok("p", x.s + ts[i+1].s + ts[i+2].s, x.a, ts[i+2].b, x.line)); i += 3; continue
        if x.k == "p" and i + 1 < len(ts) and x.s + ts[i+1].s in OPS2 and adj(x, ts[i+1]):
            out.append(Tok("p", x.s + ts[i+1].s, x.a, ts[i+1].b, x.line)); i += 2; continue
        out.append(x); i += 1
    return out

def adj(a, b): return a.b == b.a   # tokens made by L() all carry 0,0: adjacent by construction

class Unit:
    """the generated Verus text of one unit, with the origin of every line"""
    def __init__(s, name): s.name = name; s.lines = []; s.org = []; s.rewrites = {}; s.fns = []; s.lost = []; s.dropped = []; s.probe = False; s.probes = []
    def add(s, txt, org):
        for l in txt.split("\n"): s.lines.append(l); s.org.append(org)

def loops_of(ts):
    """[(kw_index, brace_open, brace_close)] of the loops in ts, in source order"""
    r = []
    for i, x in enumerate(ts):
        if x.k == "id" and x.s in ("while", "for", "loop") and not (x.s == "for" and i + 1 < len(ts) and ts[i+1].s == "<"):
            j = i + 1
            while j < len(ts) and not (ts[j].s == "{"):
                j = tree_end(ts, j)
            if j < len(ts): r.append((i, j, match_close(ts, j)))
    return r

def parse_block(lines):
    """directive block -> (opts, list of (cmd, arg, text))"""
    secs, cur = [], None
    for l in lines:
        m = re.match(r"\s*//@ ?(\S+) ?(.*)$", l)
        if m: cur = [m.group(1), m.group(2).strip(), []]; secs.append(cur)
        else:
            if cur is None: raise Exception("text before directive: " + l)
            cur[2].append(l)
    return [(c, a, "\n".join(t)) for c, a, t in secs]

def extract_fn(src, unit, file, path, secs, grules):
    it = src.find(file, path)
    if it.kind != "fn": raise AnchorLost(path + " is not a fn")
    t = list(it.toks)
    b = len(t) - 1
    has_body = it.body is not None
    line0 = t[0].line
    # split header/body
    bi = len(it.hdr)
    hdr, body = t[:bi], (t[bi+1:-1] if has_body else None)
    opts = {c: a for c, a, _ in secs if c in ("ret", "rename", "vis", "attr", "hdr")}
    if "hdr" in opts:
        # a header of our own: for a closure, whose parameters it lists under their own names, or a signature outside the subset
        if hasattr(it, "params"):
            body = it.body
            for q in it.params:
                if q.k == "id" and q.s not in (x.s for x in lex(opts["hdr"])): raise AnchorLost("%s: parameter %s" % (path, q.s))
        hdr = keep_line(L(opts["hdr"]), line0)
    rules = list(grules)
    for c, a, x in secs:
        if c == "rewrite": rules.append(a + x)
        if c == "bodyrewrite": rules.append("body " + a + x)
        if c == "norewrite": rules = [r for r in rules if a not in r]
    for r in rules:
        if r.startswith("method "):
            nm = r.split()[1]
            if body is not None:
                body, n = rewrite_method(body, nm, METHODS[nm])
                if n: unit.rewrites["method " + nm] = unit.rewrites.get("method " + nm, 0) + n
            continue
        ho = r.startswith("body ")
        pat, rep = (r[5:] if ho else r).split("==>"); opt = True
        if body is not None:
            body, n = rewrite(body, pat.strip(), rep.strip())
            if n: unit.rewrites[r.strip()] = unit.rewrites.get(r.strip(), 0) + n
        if ho: continue
        hdr, n = rewrite(hdr, pat.strip(), rep.strip())
        if n: unit.rewrites[r.strip()] = unit.rewrites.get(r.strip(), 0) + n
    if body is not None and unit.decimals: body = decimal_literals(body)
    # statement level attributes and cfg'd statements
    if body is not None: body = strip_attrs(body, unit)
    # return name
    if "ret" in opts:
        d, arrow = 0, None
        for i in range(len(hdr) - 1):
            if hdr[i].s in OPEN: d += 1
            elif hdr[i].s in CLOSE: d -= 1
            if d == 0 and hdr[i].s == "-" and hdr[i+1].s == ">": arrow = i; break
        if arrow is None:
            wi = next((i for i, x in enumerate(hdr) if x.s == "where"), len(hdr))
        else:
            wi = next((i for i in range(arrow, len(hdr)) if hdr[i].s == "where"), len(hdr))
            ty = hdr[arrow+2:wi]
            hdr = hdr[:arrow+2] + keep_line(L("( " + opts["ret"] + " :"), hdr[arrow].line) + ty + keep_line(L(")"), hdr[arrow].line) + hdr[wi:]
    if "rename" in opts:
        i = next(i for i, x in enumerate(hdr) if x.s == "fn")
        hdr[i+1] = Tok("id", opts["rename"], 0, 0, hdr[i+1].line)
    hdr_txt = render(join_ops(hdr))
    hdr_txt = re.sub(r"^pub\s*\([^)]*\)\s*", "", hdr_txt)
    hdr_txt = re.sub(r"^pub\s+", "", hdr_txt) if opts.get("vis") == "none" else hdr_txt
    org = dict(file=file, item=path, line=line0)
    if opts.get("attr"): unit.add(opts["attr"], org)
    unit.add(hdr_txt, org)
    for c, a, x in secs:
        if c == "spec": unit.add(x, dict(org, part="contract"))
    if not has_body:
        unit.add(";", org); return it
    # in-body insertions: list of (token index, order, text)
    ins = []
    lps = loops_of(body)
    want = next((int(a) for c, a, _ in secs if c == "loops"), None)
    if want is not None and want != len(lps): raise AnchorLost("%s: %d loops, contract written for %d" % (path, len(lps), want))
    for c, a, x in secs:
        if c == "loop":
            p = a.split(); k = int(p[0]); pos = p[1] if len(p) > 1 else "inv"
            if k >= len(lps): raise AnchorLost("%s: loop %d is gone" % (path, k))
            kw, o, e = lps[k]
            if pos == "inv": ins.append((o, x))
            elif pos == "start": ins.append((o + 1, x))
            elif pos == "end": ins.append((e, x))
            elif pos == "before":
                s0 = kw
                if s0 > 1 and body[s0-1].s == ":" and body[s0-2].k == "life": s0 -= 2
                ins.append((s0, x))
            elif pos == "after": ins.append((e + 1, x))
            elif pos == "iter":
                q = next(i for i in range(kw, o) if body[i].s == "in")
                ins.append((q + 1, p[2] + " : "))
        elif c == "nested":
            # contract of a function nested in the body: `nested NAME RET`
            nm, rv = a.split()
            f = find_all(body, "fn " + nm)
            if len(f) != 1: raise AnchorLost("%s: nested fn %s found %d times" % (path, nm, len(f)))
            k = f[0][1]
            while body[k].s != "(": k += 1
            k = match_close(body, k) + 1
            if not (body[k].s == "-" and body[k+1].s == ">"): raise AnchorLost("%s: nested fn %s returns nothing" % (path, nm))
            q = k + 2
            while body[q].s != "{": q += 1
            ins.append((k + 2, "( %s :" % rv)); ins.append((q, ")\n" + x))
        elif c == "start": ins.append((0, x))
        elif c == "finish": ins.append((len(body), x))
        elif c in ("before", "after"):
            pat, _, nth = a.partition(" @@ ")
            f = find_all(body, pat)
            if nth == "all": sel = f
            else:
                k = int(nth or 0)
                if len(f) <= k or (not nth and len(f) != 1): raise AnchorLost("%s: anchor `%s` found %d times" % (path, pat, len(f)))
                sel = [f[k]]
            for s0, e0 in sel: ins.append((s0 if c == "before" else e0, x))
    ins.sort(key=lambda z: z[0])
    unit.add("{", org)
    for k, (pos, x) in enumerate(ins):   # hide(..) must come first
        if pos == 0 and x.strip().startswith("hide("):
            h, _, rest = x.lstrip("\n").partition("\n"); unit.add(h, dict(org, part="proof")); ins[k] = (pos, rest)
    if unit.probe: unit.add("proof { assert(false); } // probe", dict(org, part="probe")); unit.probes.append(path)
    prev = 0
    for pos, x in ins:
        if pos > prev: unit.add(render(join_ops(body[prev:pos])), org)
        unit.add(x, dict(org, part="proof"))
        prev = pos
    if prev < len(body): unit.add(render(join_ops(body[prev:])), org)
    unit.add("}", org)
    unit.fns.append("%s :: %s" % (file, path))
    return it

def strip_attrs(t, unit):
    """drop attributes inside a body; drop the statement after a cfg attribute that is off"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i+1].s == "[":
            e = match_close(t, i + 1); a = t[i:e+1]; i = e + 1
            unit.dropped.append(text(a))
            if len(a) > 4 and a[2].s == "cfg" and not cfg_ok(a[4:-2]):
                while i < len(t) and t[i].s not in (";",):
                    blk = t[i].s == "{"
                    i = tree_end(t, i)
                    if blk: break
                else: i += 1
            continue
        out.append(t[i]); i += 1
    return out

def build(template_path, repo, name=None, probe=False):
    src = Source(repo)
    unit = Unit(name or os.path.basename(template_path)); unit.probe = probe; unit.decimals = False
    tl = []
    def load(p): expand(os.path.basename(p), open(p, encoding="utf-8").read().split("\n"))
    def expand(fn, ls):
        n = 0
        while n < len(ls):
            l = ls[n]; n += 1
            m = re.match(r"\s*//@ include (\S+)", l)
            r = re.match(r"\s*//@ repeat (.*)$", l)
            if m: load(os.path.join(os.path.dirname(template_path), m.group(1)))
            elif r:
                # //@ repeat A B | v11 v12 | v21 v22 ...   the block once per row, @A@ @B@ substituted; blocks nest
                e, d = n, 0
                while True:
                    if re.match(r"\s*//@ repeat ", ls[e]): d += 1
                    elif re.match(r"\s*//@ endrepeat", ls[e]):
                        if d == 0: break
                        d -= 1
                    e += 1
                names, *rows = [x.split() for x in r.group(1).split("|")]
                for row in rows:
                    blk = []
                    for x in ls[n:e]:
                        for a, b in zip(names, row): x = x.replace("@" + a + "@", b)
                        blk.append(x)
                    expand(fn, blk)
                n = e + 1
            else: tl.append((fn, l))
    load(template_path)
    grules, i = [], 0
    while i < len(tl):
        fn, l = tl[i]
        m = re.match(r"\s*//@ (\S+) ?(.*)$", l)
        if not m:
            unit.add(l, dict(file="(unit) " + fn, item=None, line=i)); i += 1; continue
        cmd, arg = m.group(1), m.group(2)
        if cmd == "rewrite": grules.append(arg); i += 1; continue
        if cmd == "unrewrite": grules = [r for r in grules if arg not in r]; i += 1; continue
        if cmd == "fnset":
            # //@ fnset FILE | PATH | a b c : the module must hold exactly these functions
            f, p, names = [x.strip() for x in arg.split("|")]
            have = src.fn_names(f, p)
            if have != sorted(names.split()):
                raise AnchorLost("%s %s: functions are %s, contracts written for %s" % (f, p, have, sorted(names.split())))
            i += 1; continue
        if cmd == "decimals": unit.decimals = True; i += 1; continue
        if cmd == "consts":
            # //@ consts FILE | PATH : the module's constants, with their exact values as contracts
            f, p = [x.strip() for x in arg.split("|")]
            for it in items(src.find(f, p).body):
                if it.kind == "const": emit_const(unit, f, p, it)
            i += 1; continue
        if cmd == "extract":
            f, p = [x.strip() for x in arg.split("|")[:2]]
            k = i + 1; blk = []
            while not re.match(r"\s*//@ end\b", tl[k][1]): blk.append(tl[k][1]); k += 1
            secs = parse_block(blk)
            it = src.find(f, p)
            if it.kind == "fn": extract_fn(src, unit, f, p, secs, grules)
            else: extract_item(src, unit, f, p, secs, grules)
            i = k + 1; continue
        raise Exception("unknown directive " + l)
    return unit

# rust_decimal's own constants used by the repository (value as printed in its documentation)
DEC_CONSTS = dict(PI="3.1415926535897932384626433833", TWO_PI="6.2831853071795864769252867666", HALF_PI="1.5707963267948966192313216916",
    QUARTER_PI="0.7853981633974483096156608458", E="2.7182818284590452353602874714", E_INVERSE="0.3678794411714423215955237702", ZERO="0", ONE="1", TWO="2", TEN="10", ONE_HUNDRED="100",
    ONE_THOUSAND="1000", NEGATIVE_ONE="-1")

def dec_parts(s):
    """decimal literal -> (mantissa, scale, value in units of 10^-28)"""
    s = s.replace("_", "")
    neg = s.startswith("-"); s = s.lstrip("-")
    a, _, b = s.partition(".")
    if not (a + b).isdigit() or len(b) > 28: raise AnchorLost("decimal literal " + s)
    m = int(a + b) * (-1 if neg else 1)
    return m, len(b), m * 10 ** (28 - len(b))

def decimal_literals(t):
    """dec!(LIT) -> v_lit(mantissa, scale, value)"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "dec" and i + 2 < len(t) and t[i+1].s == "!" and t[i+2].s == "(":
            e = match_close(t, i + 2)
            m, s, v = dec_parts("".join(x.s for x in t[i+3:e]))
            out += keep_line(L("v_lit ( Ghost ( %s ) , Ghost ( %s ) , Ghost ( %s ) )" % (gi(m), gi(s), gi(v))), t[i].line); i = e + 1
        else: out.append(t[i]); i += 1
    return out

def gi(n): return "%dint" % n if n >= 0 else "- %dint" % -n

def emit_const(unit, f, p, it):
    t = it.toks; name = it.name
    eq = next(i for i, x in enumerate(t) if x.s == "=")
    ty = text(t[next(i for i, x in enumerate(t) if x.s == ":") + 1:eq]); val = t[eq+1:-1]
    org = dict(file=f, item=p + " / const " + name, line=t[0].line)
    if ty == "Decimal":
        if val[0].s == "dec": lit = "".join(x.s for x in val[3:-1])
        elif len(val) == 4 and val[0].s == "Decimal" and val[3].s in DEC_CONSTS: lit = DEC_CONSTS[val[3].s]
        else: raise AnchorLost("constant %s = %s" % (name, text(val)))
        m, s, v = dec_parts(lit)
        unit.add("pub uninterp spec fn k_%s() -> Decimal;" % name, org)
        unit.add("#[verifier::external_body]\npub proof fn ax_%s() ensures k_%s().m() == %s, k_%s().scale() == %d, k_%s().v() == %s { unimplemented!() }" % (name, name, gi(m), name, s, name, gi(v)), org)
        unit.add("#[verifier::external_body]\npub exec const %s: Decimal ensures %s == k_%s(), %s.m() == %s, %s.scale() == %d, %s.v() == %s { Decimal { _p: () } }" % (name, name, name, name, gi(m), name, s, name, gi(v)), org)
    else: unit.add(render(join_ops(strip_attrs(list(t), unit))), org)

def extract_item(src, unit, f, p, secs, grules):
    """struct / enum / const / macro text, verbatim apart from listed rewrites; attributes replaced by `attr`"""
    it = src.find(f, p)
    t = list(it.toks); t = strip_attrs(t, unit)
    rules = list(grules) + [a + x for c, a, x in secs if c == "rewrite"]
    for r in rules:
        if r.startswith("method "): continue
        pat, rep = r.split("==>"); t, n = rewrite(t, pat.strip(), rep.strip())
        if n: unit.rewrites[r.strip()] = unit.rewrites.get(r.strip(), 0) + n
    org = dict(file=f, item=p, line=it.toks[0].line)
    for c, a, x in secs:
        if c == "attr": unit.add(a, org)
    unit.add(render(join_ops(t)), org)

if __name__ == "__main__":
    import sys
    u = build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo")
    print("\n".join(u.lines))
