//! C01: a well-formed tree converts to its postfix form. Input: "cfg|tree" (prefix encoding).
use crate::exprs::*;
use crate::util::*;
use prexel::evaluator::infix_to_rpn;

pub fn parse(input: &str) -> (Cfg, E) {
    let (c, t) = input.split_at(input.find('|').unwrap());
    (Cfg::dec(c), E::dec(&mut t[1..].split(' ').filter(|x| !x.is_empty())))
}
pub fn check(input: &str) -> Result<(), String> {
    let (c, e) = parse(input);
    if !e.wf(c) { return Ok(()) }
    let toks = e.toks();
    let mut want = vec![]; e.post(&mut want);
    match with_ctx(c, |x| infix_to_rpn(&toks, x)) {
        Ok(got) => if got == want { Ok(()) } else { Err(format!("`{}` converts to `{}` instead of `{}`", enc_toks(&toks), enc_toks(&got), enc_toks(&want))) },
        Err(err) => Err(format!("`{}` is rejected: {}", enc_toks(&toks), err)),
    }
}
pub fn enc(c: Cfg, e: &E) -> String { let mut s = String::new(); e.enc(&mut s); format!("{}|{}", c.enc(), s) }
/// all trees over a small alphabet with at most n nodes
pub fn small(n: usize) -> Vec<E> {
    use prexel::token::Token;
    let mut by: Vec<Vec<E>> = vec![vec![]];
    for k in 1..=n {
        let mut v = vec![];
        if k == 1 {
            v.push(E::Atom(Token::Number(Sym("1".into())))); v.push(E::Atom(Token::Variable("x".into())));
            v.push(E::Call("f".into(), '(', ')', vec![]));
        } else {
            for x in &by[k - 1] {
                v.push(E::Paren('(', ')', Box::new(x.clone())));
                v.push(E::Call("f".into(), '(', ')', vec![x.clone()]));
                v.push(E::Call("max".into(), '[', ']', vec![x.clone()]));
                v.push(E::Pre("-".into(), Box::new(x.clone())));
                v.push(E::Post("!".into(), Box::new(x.clone())));
            }
            for i in 1..k - 1 {
                for l in &by[i] { for r in &by[k - 1 - i] {
                    v.push(E::Call("f".into(), '(', ')', vec![l.clone(), r.clone()]));
                    for o in ["+", "#", "*", "^"] { v.push(E::Bin(o.into(), Box::new(l.clone()), Box::new(r.clone()))) }
                    v.push(E::Juxt(Box::new(l.clone()), Box::new(r.clone())));
                } }
            }
        }
        by.push(v);
    }
    by.concat()
}
pub fn drive(s: &mut S, enc_in: fn(Cfg, &E) -> String) {
    let sm = small(4);
    'o: for c in Cfg::all() { for e in &sm { if e.wf(c) { if !s.test(enc_in(c, e)) { break 'o } s.count("exhaustive_small_trees", 1) } } }
    let mut deep = 0;
    while s.go() {
        let c = Cfg::all()[s.rng.below(4)];
        let n = if deep % 4000 == 3999 { 400 + s.rng.below(4000) } else { 2 + s.rng.below(24) };
        deep += 1;
        let e = gen(&mut s.rng, c, n);
        if e.wf(c) { if s.test(enc_in(c, &e)) { s.count("random_trees", 1) } } else { s.count("skipped_not_wf", 1) }
        if deep % 20000 == 1 {
            // deep one-sided shapes
            for shape in 0..8 {
                let mut e = E::Atom(atom(&mut s.rng));
                for _ in 0..2000 {
                    e = match shape {
                        0 => E::Paren('(', ')', Box::new(e)), 1 => E::Call("f".into(), '(', ')', vec![E::Atom(atom(&mut s.rng)), e]),
                        2 => E::Pre("-".into(), Box::new(if e.is_atom() { E::Paren('(', ')', Box::new(e)) } else { e })), 3 => E::Post("!".into(), Box::new(e)),
                        4 => E::Bin("+".into(), Box::new(e), Box::new(E::Atom(atom(&mut s.rng)))),
                        5 => E::Bin("^".into(), Box::new(E::Atom(atom(&mut s.rng))), Box::new(e)),
                        6 => E::Call("max".into(), '(', ')', vec![e, E::Call("Nil".into(), '(', ')', vec![])]),
                        _ => E::Bin("*".into(), Box::new(E::Pre("-".into(), Box::new(E::Paren('[', ']', Box::new(e))))), Box::new(E::Atom(atom(&mut s.rng)))),
                    };
                }
                if e.wf(c) { s.test(enc_in(c, &e)); s.count("deep_trees", 1) }
            }
            let wide = E::Call("f".into(), '(', ')', (0..3000).map(|_| E::Atom(atom(&mut s.rng))).collect());
            s.test(enc_in(c, &wide));
        }
    }
}
pub fn search(s: &mut S) { drive(s, enc) }
