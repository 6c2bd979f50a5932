//! C03: evaluation of converted expressions. Input: "cfg|T|tree" or "cfg|S|tok tok .."
use crate::c02;
use crate::exprs::*;
use crate::util::*;
use prexel::evaluator::{infix_to_rpn, rpn_eval, Evaluator};
use prexel::token::Token;

/// plain postfix application
fn apply(rpn: &[Tok]) -> Option<Sym> {
    let mut st: Vec<Sym> = vec![]; let mut argc: Option<usize> = None;
    for t in rpn {
        match t {
            Token::Number(n) => st.push(n.clone()), Token::Variable(s) => st.push(r_var(s)?), Token::Constant(s) => st.push(r_con(s)?),
            Token::ArgCount(n) => argc = Some(*n),
            Token::UnaryOperator(u) => { let n = UNS.iter().find(|x| x.0.eq_ignore_ascii_case(u))?.0; let a = st.pop()?; st.push(r_un(n, &a)?) }
            Token::BinaryOperator(o) => { let n = sbin(o)?.name; let b = st.pop()?; let a = st.pop()?; st.push(r_bin(n, &a, &b)?) }
            Token::Function(f) => {
                let n = FUNS.iter().find(|x| x.eq_ignore_ascii_case(f))?; let k = argc.take()?;
                if st.len() < k { return None }
                let a = st.split_off(st.len() - k); st.push(r_fun(n, &a)?)
            }
            _ => return None,
        }
    }
    if st.len() == 1 { st.pop() } else { None }
}
fn same(what: &str, toks: &[Tok], got: prexel::Result<Sym>, want: Option<Sym>) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Some(b)) if a == b => Ok(()), (Err(_), None) => Ok(()),
        (g, w) => Err(format!("`{}` {} to {:?} instead of {:?}", enc_toks(toks), what, g.map_err(|e| e.to_string()), w)),
    }
}
pub fn check(input: &str) -> Result<(), String> {
    let mut it = input.splitn(3, '|');
    let (c, kind, rest) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    if kind == "T" {
        let (c, e) = crate::c01::parse(&format!("{}|{}", c, rest));
        if !e.wf(c) { return Ok(()) }
        let toks = e.toks();
        // C03 is about evaluation: a wrong conversion is C01's violation
        let mut want = vec![]; e.post(&mut want);
        if with_ctx(c, |x| infix_to_rpn(&toks, x)).ok() != Some(want) { return Ok(()) }
        same("evaluates", &toks, with_ctx(c, |x| rpn_eval(&toks, x)), e.den())?;
        let ev = Evaluator::with_context(mk_cached(c));
        same("evaluates (Evaluator)", &toks, ev.eval_tokens(&toks), e.den())
    } else {
        let (c, toks) = dec_input(&format!("{}|{}", c, rest));
        let want = match with_ctx(c, |x| infix_to_rpn(&toks, x)) { Ok(r) => apply(&r), Err(_) => None };
        same("evaluates", &toks, with_ctx(c, |x| rpn_eval(&toks, x)), want)
    }
}
fn mk_cached(c: Cfg) -> prexel::context::DefaultContext<'static, Sym> { with_ctx(c, |x| x.clone()) }
fn enc(c: Cfg, e: &E) -> String { let mut s = String::new(); e.enc(&mut s); format!("{}|T|{}", c.enc(), s) }
pub fn search(s: &mut S) {
    let mut f = |s: &mut S, c: Cfg, v: &[Tok]| s.test(format!("{}|S|{}", c.enc(), enc_toks(v)));
    for _ in 0..30000 { if s.go() { c02::random(s, &mut f) } }
    for e in crate::c01::small(3) { for c in Cfg::all() { if s.go() && e.wf(c) { s.test(enc(c, &e)); s.count("exhaustive_small_trees", 1) } } }
    c02::sequences(s, &mut f);
    while s.go() {
        for _ in 0..100 { if s.go() { c02::random(s, &mut f) } }
        let c = Cfg::all()[s.rng.below(4)]; let n = 1 + s.rng.below(16);
        let e = gen(&mut s.rng, c, n);
        if e.wf(c) { s.test(enc(c, &e)); s.count("random_trees", 1) }
    }
}
