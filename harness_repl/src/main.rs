//! C22: the command line app, run with a scripted keyboard (terminal/), against the evaluator library.
//! Input: `TYPE|HISTORY or -|KEYS`, with the keys ⏎ Enter, ↑ Up, ↓ Down, ← Left, → Right, ⌫ Backspace, ⌦ Delete, ⎋ Esc, ⇥ Tab,
//! ⤢ a resize, and any other character itself; `eval|TYPE|EXPRESSION` for the eval command; `list|TYPE|constants`, `operators` or
//! `functions` for the listing commands (all fifteen of them are run).
#![allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::num_traits::Zero;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::rules::{self, Outcome, SplitRule};
use prexel::utils::splitter::{DefaultSplitterBuilder, SplitWhitespaceOption};
use std::fmt::{Debug, Display};
use std::iter::Peekable;
use std::process::{Command, Stdio};
use std::str::{Chars, FromStr};
use std::time::{Duration, Instant};
use util::*;

const MARK: char = '\u{1e}';
const NAMED: &[(char, char)] = &[('↑', '\u{e001}'), ('↓', '\u{e002}'), ('←', '\u{e003}'), ('→', '\u{e004}'), ('⌫', '\u{e005}'), ('⌦', '\u{e006}'), ('⎋', '\u{e007}'), ('⇥', '\u{e008}'), ('⤢', '\u{e009}'), ('⏎', '\u{e00a}')];

/// run the app; (exit code, stdout, stderr)
fn app(args: &[&str], keys: Option<&str>) -> Result<(Option<i32>, String, String), String> {
    let dir = std::env::temp_dir().join(format!("vhr.{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (o, e, k) = (dir.join("out"), dir.join("err"), dir.join("keys"));
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("app");
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null()).stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    if let Some(t) = keys { std::fs::write(&k, t).unwrap(); c.env("VH_KEYS", &k); }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let t = Instant::now();
    let code = loop {
        match child.try_wait() { Ok(Some(st)) => break st.code(), Ok(None) => {}, Err(e) => return Err(e.to_string()) }
        if t.elapsed() > Duration::from_millis(7000) { let _ = child.kill(); let _ = child.wait(); let _ = std::fs::remove_dir_all(&dir); return Err("the app does not end (killed after 7 s)".into()) }
        std::thread::sleep(Duration::from_micros(250));
    };
    let (so, se) = (String::from_utf8_lossy(&std::fs::read(&o).unwrap()).into_owned(), String::from_utf8_lossy(&std::fs::read(&e).unwrap()).into_owned());
    let _ = std::fs::remove_dir_all(&dir);
    Ok((code, so, se))
}

// ---------------------------------------------------------------- what a session should do
#[derive(Debug, PartialEq, Clone)]
enum Out { Value(String), Nothing, Error, Exit }
/// `name = number`: an equals sign that is no part of ==, !=, <= or >=
fn assignment(line: &str) -> bool {
    let c: Vec<char> = line.chars().collect();
    (0..c.len()).any(|i| c[i] == '=' && (i == 0 || !"=!<>".contains(c[i - 1])) && c.get(i + 1) != Some(&'='))
}
fn tokenizer<'a, N>(binary: bool) -> Tokenizer<'a, N> where N: FromStr + Clone + Display + Debug + 'a, <N as FromStr>::Err: Display {
    struct Dollar;
    impl SplitRule for Dollar {
        fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
            if c != '$' { return Outcome::Continue }
            let mut t = String::from("$");
            while let Some(&d) = rest.peek() { if d.is_ascii_alphanumeric() || d == '_' { t.push(d); rest.next(); } else { break } }
            Outcome::Data(t)
        }
    }
    let mut b = DefaultSplitterBuilder::new().rule(Dollar).rule(rules::SplitNumeric).rule(rules::SplitIdentifier).rule(rules::SplitWithOperators::builder().except('$').build()).whitespace(SplitWhitespaceOption::Remove);
    if binary { b = b.insert_rule(0, rules::SplitBinary) }
    Tokenizer::with_splitter(b.build())
}
trait Session { fn line(&mut self, line: &str) -> Out; }
struct Lib<N: Clone + 'static>(Evaluator<'static, N, DefaultContext<'static, N>>);
fn lib<N>(mut c: DefaultContext<'static, N>, binary: bool) -> Box<dyn Session> where N: FromStr + Clone + Display + Debug + Zero + 'static, <N as FromStr>::Err: Display {
    c.set_variable("$result", N::zero()).unwrap();
    Box::new(Lib(Evaluator::with_context_and_tokenizer(c, tokenizer(binary))))
}
impl<N> Session for Lib<N> where N: FromStr + Clone + Display + Debug + 'static, <N as FromStr>::Err: Display {
    fn line(&mut self, line: &str) -> Out {
        let line = line.trim();
        if line == "exit" { return Out::Exit }
        if assignment(line) {
            let p: Vec<&str> = line.split('=').map(|x| x.trim()).collect();
            if p.len() != 2 { return Out::Error }
            return match p[1].parse::<N>() { Ok(v) => if self.0.mut_context().set_variable(p[0], v).is_ok() { Out::Nothing } else { Out::Error }, Err(_) => Out::Error };
        }
        match self.0.eval(line) { Ok(v) => { let t = v.to_string(); let _ = self.0.mut_context().set_variable("$result", v); Out::Value(t) } Err(_) => Out::Error }
    }
}
fn config() -> Config { Config::new().with_implicit_mul(true) }
fn session(ty: &str) -> Option<Box<dyn Session>> {
    Some(match ty {
        "decimal" => lib(DefaultContext::with_config_decimal(config()), false),
        "float" => lib(DefaultContext::<f64>::with_config_unchecked(config()), false),
        "integer" => lib(DefaultContext::<i128>::with_config_checked(config()), false),
        "complex" => lib(DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true)), false),
        "binary" => lib(DefaultContext::with_config_binary(config()), true),
        _ => return None,
    })
}
fn eval(ty: &str, e: &str) -> Option<Result<String, String>> {
    fn fin<N: Display>(r: prexel::Result<N>) -> Result<String, String> { r.map(|v| v.to_string()).map_err(|e| e.to_string()) }
    Some(match ty {
        "decimal" => fin(Evaluator::with_context(DefaultContext::<Decimal>::with_config_decimal(config())).eval(e)),
        "float" => fin(Evaluator::with_context(DefaultContext::<f64>::with_config_unchecked(config())).eval(e)),
        "integer" => fin(Evaluator::with_context(DefaultContext::<i128>::with_config_checked(config())).eval(e)),
        "complex" => fin(Evaluator::with_context(DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true))).eval(e)),
        "binary" => fin(Evaluator::<Binary, _>::with_context_and_tokenizer(DefaultContext::with_config_binary(config()), Tokenizer::with_splitter(binary_number_splitter())).eval(e)),
        _ => return None,
    })
}

/// name and value or description of everything the listing command should print, in any order
fn listed(ty: &str, what: &str) -> Option<Vec<(String, String)>> {
    fn of<N: Display>(c: DefaultContext<'_, N>, what: &str) -> Option<Vec<(String, String)>> {
        let d = |x: Option<&str>| x.unwrap_or_default().trim().to_string();
        Some(match what {
            "constants" => c.constants().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            "functions" => c.functions().iter().map(|(k, f)| (k.to_string(), d(f.description()))).collect(),
            "operators" => c.binary_functions().iter().map(|(k, f)| (k.to_string(), d(f.description()))).chain(c.unary_functions().iter().map(|(k, f)| (k.to_string(), d(f.description())))).collect(),
            _ => return None,
        })
    }
    match ty {
        "decimal" => of(DefaultContext::new_decimal(), what),
        "float" => of(DefaultContext::<f64>::new_unchecked(), what),
        "integer" => of(DefaultContext::<i128>::new_checked(), what),
        "complex" => of(DefaultContext::<Complex<f64>>::new_complex(), what),
        "binary" => of(DefaultContext::new_binary(), what),
        _ => None,
    }
}
pub fn check(input: &str) -> Result<(), String> {
    let p: Vec<&str> = input.splitn(3, '|').collect();
    if p.len() != 3 { return Ok(()) }
    if p[0] == "eval" {
        let want = match eval(p[1], p[2]) { Some(w) => w, None => return Ok(()) };
        let (code, so, se) = app(&["--no-color", "eval", "--type", p[1], "--", p[2]], None)?;
        let ok = match &want { Ok(v) => so.trim() == v && se.trim().is_empty(), Err(_) => so.trim().is_empty() && !se.trim().is_empty() };
        if !ok || code == Some(101) || code.is_none() { return Err(format!("exit code {:?}, output {:?}, errors {:?}; the library gives {:?}", code, so, se, want)) }
        return Ok(());
    }
    if p[0] == "list" {
        let mut want = match listed(p[1], p[2]) { Some(w) => w, None => return Ok(()) };
        let (code, so, se) = app(&["--no-color", p[2], "--type", p[1]], None)?;
        let mut got: Vec<(String, String)> = so.lines().filter(|l| !l.trim().is_empty()).map(|l| { let l = l.trim(); let n = l.find(char::is_whitespace).unwrap_or(l.len()); (l[..n].to_string(), l[n..].trim().to_string()) }).collect();
        got.sort(); want.sort();
        if code != Some(0) || !se.trim().is_empty() || got != want { return Err(format!("exit code {:?}, errors {:?}; lists {:?} which the library has not, and lacks {:?}", code, se, got.iter().filter(|x| !want.contains(x)).collect::<Vec<_>>(), want.iter().filter(|x| !got.contains(x)).collect::<Vec<_>>())) }
        return Ok(());
    }
    let mut s = match session(p[0]) { Some(s) => s, None => return Ok(()) };
    let cap = if p[1] == "-" { 100 } else { p[1].parse().map_err(|_| "bad history size")? };
    let keys: String = p[2].chars().map(|c| NAMED.iter().find(|n| n.0 == c).map_or(c, |n| n.1)).collect();
    let mut args = vec!["--no-color", "repl", "--type", p[0]];
    if p[1] != "-" { args.extend(["--history", p[1]].iter()) }
    let (code, so, se) = app(&args, Some(&keys))?;
    let (so, se): (Vec<&str>, Vec<&str>) = (so.split(MARK).collect(), se.split(MARK).collect());
    let died = code != Some(0);
    // segment i + 1 is what the app wrote on key i
    let (mut buf, mut hist, mut cur) = (String::new(), Vec::<String>::new(), 0usize);
    for (i, k) in p[2].chars().enumerate() {
        let at = |w: String| Err(format!("key {} ({}): {}", i + 1, k, w));
        if i + 1 >= so.len() || i + 1 >= se.len() { return at(format!("the session is over (exit code {:?}, errors {:?})", code, se.last())) }
        let (o, e) = (so[i + 1], se[i + 1]);
        if died && i + 2 == so.len() { return at(format!("the app died with exit code {:?}: {}", code, e)) }
        match k {
            '⏎' => {
                let line = std::mem::take(&mut buf);
                let want = s.line(&line);
                if want == Out::Exit { return if so.len() == i + 2 { Ok(()) } else { at("`exit` does not end the session".to_string()) } }
                let shown = o.replace(">>>", "");
                let shown = shown.trim();
                let ok = match &want { Out::Value(v) => shown == v.trim() && e.trim().is_empty(), Out::Nothing => shown.is_empty() && e.trim().is_empty(), _ => shown.is_empty() && !e.trim().is_empty() };
                if !ok { return at(format!("line {:?} prints {:?} and errors {:?}, expected {:?}", line, shown, e.trim(), want)) }
                if !line.trim().is_empty() {
                    if hist.last() != Some(&line) && cap > 0 { if hist.len() == cap { hist.remove(0); } hist.push(line) }
                    cur = hist.len();
                }
            }
            '↑' | '↓' => {
                if k == '↑' && cur > 0 { cur -= 1; buf = hist[cur].clone() }
                else if k == '↓' && cur < hist.len() { cur += 1; buf = hist.get(cur).cloned().unwrap_or_default() }
                if let Some(x) = o.rfind(">>> ") { if o[x + 4..] != buf { return at(format!("shows {:?}, expected {:?}", &o[x + 4..], buf)) } }
            }
            '⌫' => { buf.pop(); }
            '⎋' => return if so.len() == i + 2 { Ok(()) } else { at("Esc does not end the session".to_string()) },
            '←' | '→' | '⌦' | '⇥' | '⤢' => {}
            c => buf.push(c),
        }
        if k != '⏎' && !e.is_empty() { return at(format!("writes errors {:?}", e)) }
    }
    if died { return Err(format!("exit code {:?} at the end, errors {:?}", code, se.last())) }
    Ok(())
}

const TYPES: &[&str] = &["decimal", "float", "integer", "complex", "binary"];
fn number(s: &mut S, ty: &str) -> String {
    let t: &[&str] = match ty {
        "decimal" => &["0", "1", "2", "7", "12", "-3", "0.5", "3.25", "100", "+4", "1e3", "79228162514264337593543950335", "abc", "", "1.2.3"],
        "float" => &["0", "1", "2", "7", "0.5", "-2.5", "1e300", "1e-3", "inf", "NaN", "abc", ""],
        "integer" => &["0", "1", "2", "7", "-3", "+5", "100", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "1.5", ""],
        "complex" => &["0", "1", "2", "i", "2i", "1+2i", "3-i", "-1", "0.5", "abc", ""],
        _ => &["0", "1", "5", "b101", "b1", "b0", "-1", "-7", "b1111", "b2", ""],
    };
    s.rng.pick(t).to_string()
}
const NAMES: &[&str] = &["a", "b", "x1", "foo", "A", "_t", "$result", "$x", "$x1", "$a_b", "pi", "sum", "2x", "a b", "and", "+", "é", "mod", ""];
fn atom(s: &mut S, ty: &str) -> String {
    match s.rng.below(6) {
        0 | 1 => s.rng.pick(&["a", "b", "x1", "foo", "a", "b", "$result", "$result", "pi", "A", "$x", "$x1"]).to_string(),
        2 => { let (x, y) = (atom(s, ty), atom(s, ty)); let f = s.rng.pick(&["max", "sum", "min", "sqrt", "abs", "foo"]); format!("{}({}, {})", f, x, y) }
        3 => { let x = expr(s, ty, 1); format!("({})", x) }
        _ => if ty == "binary" { s.rng.pick(&["b1", "b101", "b0", "b110011", "7", "12"]).to_string() } else { s.rng.pick(&["1", "2", "3", "0.5", "10", "7", "2i", "0"]).to_string() },
    }
}
fn expr(s: &mut S, ty: &str, depth: usize) -> String {
    let mut e = atom(s, ty);
    for _ in 0..s.rng.below(3) * depth.min(1) + s.rng.below(2) {
        let ops: &[&str] = if ty == "binary" { &["&", "|", "^", "==", "!=", "<=", ">=", "<", ">", "<<", ">>", "and", "=="] } else { &["+", "-", "*", "/", "^", "mod", " ", "=="] };
        let o = *s.rng.pick(ops); let sp = *s.rng.pick(&["", " "]); let sp = if o == "and" || o == "mod" { " " } else { sp };
        let a = atom(s, ty); let u = if s.rng.chance(1, 8) { if ty == "binary" { "~" } else { "-" } } else { "" };
        e = format!("{}{}{}{}{}{}", e, sp, o, sp, u, a);
    }
    e
}
fn line(s: &mut S, ty: &str) -> String {
    match s.rng.below(12) {
        0 | 1 | 2 => { let n = if s.rng.chance(3, 4) { NAMES[s.rng.below(4)] } else { *s.rng.pick(NAMES) }; let v = number(s, ty); let (a, b, c) = (*s.rng.pick(&["", " ", ""]), *s.rng.pick(&["", " "]), *s.rng.pick(&["", " ", "  "])); format!("{}{}{}={}{}{}", a, n, b, c, v, a) }
        3 => s.rng.pick(&["", " ", "=", "a = ", "= 5", "a == 5", "a = b", "a = b = 2", "a=1=", "a=>1", "a =! 1", "a === 1", "a <= 1", "exit2", "exit()", "EXIT", "(", ")", "1 +", "!", "x = 1 == 1", "a = (2)", "a => 2", "a >= = 2", "b!=b", "$", "$ result", "$a$b", "a=2;b", "5!"]).to_string(),
        4 => if s.rng.chance(1, 8) { s.rng.pick(&["exit", " exit", "exit  "]).to_string() } else { s.rng.pick(&["a", "b", "foo", "x1", "$result"]).to_string() },
        _ => expr(s, ty, 1),
    }
}
fn search(s: &mut S) {
    for ty in TYPES { for w in ["constants", "operators", "functions"] { if !s.test(format!("list|{}|{}", ty, w)) { return } s.count("listings", 1); } }
    // fixed sessions first
    for ty in TYPES {
        for h in ["-", "0", "1", "2", "3"] {
            for k in ["↑⏎↓⏎", "1⏎2⏎3⏎4⏎↑↑↑↑↑⏎↓↓⏎", "1⏎2⏎3⏎↑↑↓⏎", "1⏎2⏎↑↑↓↓↓⏎↑⏎", "⌫⌫1⌫⌫2⏎", "1⏎1⏎2⏎↑↑⏎↑⏎", "1⏎ ⏎⏎↑⏎", "a=1⏎a⏎$result⏎a=⏎a⏎", "1⏎↑5⏎↑↑⏎", "12⏎↑⌫⏎↑↑⏎", "1←2→3⌦⇥⤢⏎", "b1==b1⏎b1 >= b11⏎b1 <= b11⏎b1 != b11⏎$result⏎", "2⏎$result⏎foo⏎$result⏎", "exit⏎1⏎", "1⎋2⏎", "1⏎2⏎3⏎4⏎5⏎↑↑↑⏎↑↑⏎↑↑↑↑↑↑⏎", "a=1⏎a=2⏎a⏎b=3⏎a⏎b⏎A⏎", "$x1=7⏎$x1⏎$a_b=2⏎$A_B⏎$x⏎$_=1⏎$_⏎$=1⏎$⏎$1=3⏎$1⏎", "1é⌫⏎日本⌫⌫2⏎", "a==1⏎=a=1⏎a=1=⏎a=⏎=⏎==⏎a⏎"] {
                if !s.test(format!("{}|{}|{}", ty, h, k)) { return }
                s.count("fixed_sessions", 1);
            }
        }
        for e in ["1+2", "2(3+4)", "b101 & b11", "b1 == b1", "7/2", "1/3", "0.1+0.2", "3i*2i", "1/0", "", "(", "foo", "pi", "2^100", "2^200", "170141183460469231731687303715884105727+1", "-170141183460469231731687303715884105727-2", "170141183460469231731687303715884105727*2", "-(-170141183460469231731687303715884105728)", "35!", "-5", "5!", "sqrt(2)", "sqrt(-1)", "max(1,2)", "x = 3", "~b1", "10 mod 4", "99999999999999999999999999999999999999999999999"] { if !s.test(format!("eval|{}|{}", ty, e)) { return } }
    }
    for n in [99usize, 100, 101, 105] { let mut k = String::new(); for i in 0..n { k += &format!("{}⏎", i) } for _ in 0..n + 2 { k.push('↑') } k += "⏎"; for _ in 0..50 { k.push('↑') } k += "⏎"; if !s.test(format!("decimal|-|{}", k)) { return } }
    for (n, h) in [(60usize, "80"), (60, "55"), (140, "120"), (300, "256"), (300, "1000"), (20, "10"), (30, "16"), (40, "32"), (70, "64"), (210, "200")] { let mut k = String::new(); for i in 0..n { k += &format!("{}⏎", i) } for _ in 0..n + 2 { k.push('↑') } k += "⏎"; if !s.test(format!("integer|{}|{}", h, k)) { return } s.count("long_histories", 1); }
    for ty in TYPES { for a in ["", " ", "=", ";", "!", "-", "+", "'", "\"", "(", ")", ",", "\\", "\t", "#", "$", "--", "0", "x"] { for e in [format!("1{}", a), format!("{}1", a), format!("{}1{}", a, a), format!("1 + 1 {}", a)] {
        if !s.test(format!("eval|{}|{}", ty, e)) { return } s.count("eval_edges", 1);
    } } }
    let mut r = 0;
    while s.go() {
        r += 1;
        let ty = *s.rng.pick(TYPES);
        if s.rng.chance(1, 10) { let e = expr(s, ty, 1); if !s.test(format!("eval|{}|{}", ty, e)) { return } }
        let h = *s.rng.pick(&["-", "0", "1", "2", "3", "5", "100"]);
        let mut k = String::new();
        if s.rng.chance(1, 2) { for v in ["a", "b"] { let x = number(s, ty); k += &format!("{}={}⏎", v, x) } }
        for _ in 0..s.rng.range(1, 20) {
            match s.rng.below(8) {
                0 => for _ in 0..s.rng.range(1, 5) { k.push(*s.rng.pick(&['↑', '↑', '↓'])) },
                1 => { let l = line(s, ty); k += &l; for _ in 0..s.rng.range(1, 4) { k.push('⌫') } }
                2 => k.push(*s.rng.pick(&['←', '→', '⌦', '⇥', '⤢'])),
                _ => { let l = line(s, ty); k += &l; k.push('⏎') }
            }
        }
        for v in ["⏎a", "⏎$result", "⏎b⏎"].iter() { k += v }
        if !s.test(format!("{}|{}|{}", ty, h, k)) { return }
    }
    s.count("random_sessions", r);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 || a[2] != "C22" { eprintln!("usage: vhr search|trace|replay C22 .."); std::process::exit(2) }
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "replay" {
        let input = a[3].clone();
        match big_stack(move || guard(|| check(&input))) { Ok(()) => println!("holds"), Err(e) => { println!("violated: {}", e); std::process::exit(1) } }
    } else {
        let (seed, ms, tr) = (a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(5000), a.get(5).cloned());
        std::process::exit(big_stack(move || { let mut s = S::new(seed, ms, check, tr); search(&mut s); s.finish() }))
    }
}
