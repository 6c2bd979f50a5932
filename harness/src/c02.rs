//! C02: what conversion accepts. Input: "cfg|tok tok .."
use crate::exprs::*;
use crate::util::*;
use prexel::evaluator::infix_to_rpn;
use prexel::token::Token;

fn is_operand(t: &Tok) -> bool { matches!(t, Token::Number(_) | Token::Variable(_) | Token::Constant(_)) }
/// grouping symbols balanced, and every comma directly inside a function's own argument list
fn structure(t: &[Tok]) -> Result<(), String> {
    let mut st: Vec<usize> = vec![];
    for (i, k) in t.iter().enumerate() {
        match k {
            Token::GroupingOpen(_) => st.push(i),
            Token::GroupingClose(d) => match st.pop() {
                Some(j) if j + 1 == i && matches!(&t[j], Token::GroupingOpen(o) if "([{<".contains(*o)) && !(j > 0 && matches!(t[j - 1], Token::Function(_))) =>
                    return Err(format!("the group at {} is empty and not a call's", j)),
                None => return Err(format!("the closing symbol at {} has no opening symbol", i)),
                Some(j) => if let Token::GroupingOpen(o) = &t[j] { if close_of(*o) != *d { return Err(format!("`{}` at {} is closed by `{}` at {}", o, j, d, i)) } },
            },
            Token::Comma => match st.last() {
                Some(&j) if j > 0 && matches!(t[j - 1], Token::Function(_)) => {
                    if matches!(t[i - 1], Token::GroupingOpen(_) | Token::Comma) || matches!(t.get(i + 1), Some(Token::GroupingClose(_)) | None) {
                        return Err(format!("an argument beside the comma at {} is empty", i))
                    }
                }
                _ => return Err(format!("the comma at {} is outside a function's own argument list", i)),
            },
            _ => {}
        }
    }
    if let Some(j) = st.last() { return Err(format!("the opening symbol at {} is never closed", j)) }
    Ok(())
}
pub fn check(input: &str) -> Result<(), String> {
    let (c, toks) = dec_input(input);
    let r = match with_ctx(c, |x| infix_to_rpn(&toks, x)) { Err(_) => return Ok(()), Ok(r) => r };
    if let Some(b) = r.iter().find(|t| matches!(t, Token::GroupingOpen(_) | Token::GroupingClose(_) | Token::Comma | Token::Unknown(_))) {
        return Err(format!("`{}` is in the output `{}`", enc_tok(b), enc_toks(&r)))
    }
    let a: Vec<&Tok> = toks.iter().filter(|t| is_operand(t)).collect();
    let b: Vec<&Tok> = r.iter().filter(|t| is_operand(t)).collect();
    if a != b { return Err(format!("the operands of the output `{}` are not those of the input in order", enc_toks(&r))) }
    for t in toks.iter().chain(r.iter()) {
        let star = matches!(t, Token::BinaryOperator(s) if s == "*");
        if matches!(t, Token::UnaryOperator(_) | Token::Function(_)) || matches!(t, Token::BinaryOperator(_)) && !(star && c.imul) {
            let n = |v: &[Tok]| v.iter().filter(|x| *x == t).count();
            if n(&toks) != n(&r) { return Err(format!("`{}` occurs {} times in the input and {} times in the output `{}`", enc_tok(t), n(&toks), n(&r), enc_toks(&r))) }
        }
    }
    for (i, t) in r.iter().enumerate() {
        if matches!(t, Token::ArgCount(_)) && !matches!(r.get(i + 1), Some(Token::Function(_))) { return Err(format!("argument count without its function in `{}`", enc_toks(&r))) }
    }
    structure(&toks).map_err(|e| format!("accepted although {}", e))
}
pub fn alphabet() -> Vec<Tok> {
    ["n:1", "v:x", "f:f", "b:+", "u:-", "u:!", "o:(", "e:)", ",:", "o:[", "e:]"].iter().map(|s| dec_tok(s)).collect()
}
fn any_tok(r: &mut Rng) -> Tok {
    match r.below(24) {
        0..=4 => atom(r),
        5 | 6 => fun(r.pick(FUNS)), 7..=9 => bin(r.pick(BINS).name), 10 | 11 => un(r.pick(UNS).0),
        12..=14 => Token::GroupingOpen(*r.pick(&['(', '(', '[', '{'])), 15..=17 => Token::GroupingClose(*r.pick(&[')', ')', ']', '}'])),
        18..=20 => Token::Comma, 21 => match r.below(5) {
            0 => Token::Unknown("?".into()), 1 => Token::ArgCount(r.below(4)), 2 => Token::GroupingOpen(*r.pick(&['<', ')', 'x'])), 3 => Token::GroupingClose(*r.pick(&['>', '(', 'é'])),
            _ => match r.below(12) {
                0 => fun("zzz"), 1 => bin("??"), 2 => un("??"), 3 => Token::Variable("nope".into()), 4 => Token::Constant("nope".into()),
                // names registered under another kind, or under another spelling
                5 => Token::Variable("PI".into()), 6 => Token::Variable("pi".into()), 7 => Token::Constant("x".into()), 8 => Token::Variable(r.pick(&["Y", "ten", "f", "+"]).to_string()),
                9 => fun(r.pick(&["x", "PI", "+", "-", "FUN", "MAX"])), 10 => bin(r.pick(&["~", "!", "f", "x", "MOD"])), _ => un(r.pick(&["*", "f", "PI", "mod"])),
            },
        },
        22 => fun("f"), _ => Token::GroupingOpen('('),
    }
}
pub fn mutate(r: &mut Rng, v: &mut Vec<Tok>) {
    for _ in 0..1 + r.below(3) {
        let n = v.len();
        match r.below(5) {
            0 => { let t = any_tok(r); let i = r.below(n + 1); v.insert(i, t) }
            1 => if n > 0 { let i = r.below(n); v.remove(i); },
            2 => if n > 1 { let i = r.below(n); let j = r.below(n); v.swap(i, j) },
            3 => if n > 0 { let i = r.below(n); v[i] = any_tok(r) },
            _ => if n > 0 { let i = r.below(n); let t = v[i].clone(); let j = r.below(n + 1); v.insert(j, t) },
        }
    }
}
pub fn sequences(s: &mut S, f: &mut dyn FnMut(&mut S, Cfg, &[Tok]) -> bool) {
    let al = alphabet();
    let maxlen = 5;
    for c in [Cfg::all()[0], Cfg::all()[3]] {
        for len in 0..=maxlen {
            let mut ix = vec![0usize; len];
            loop {
                let v: Vec<Tok> = ix.iter().map(|&i| al[i].clone()).collect();
                if !s.go() || !f(s, c, &v) { return }
                s.count("exhaustive_short_sequences", 1);
                let mut k = 0;
                while k < len { ix[k] += 1; if ix[k] < al.len() { break } ix[k] = 0; k += 1 }
                if k == len { break }
            }
        }
    }
}
pub fn random(s: &mut S, f: &mut dyn FnMut(&mut S, Cfg, &[Tok]) -> bool) {
    let c = Cfg::all()[s.rng.below(4)];
    let mut v;
    if s.rng.chance(1, 3) {
        let n = s.rng.below(14);
        v = (0..n).map(|_| any_tok(&mut s.rng)).collect::<Vec<_>>();
    } else {
        let n = 1 + s.rng.below(14);
        v = gen(&mut s.rng, c, n).toks();
        mutate(&mut s.rng, &mut v);
    }
    f(s, c, &v);
    s.count("random_sequences", 1);
}
pub fn search(s: &mut S) {
    let mut f = |s: &mut S, c: Cfg, v: &[Tok]| s.test(format!("{}|{}", c.enc(), enc_toks(v)));
    for _ in 0..30000 { if s.go() { random(s, &mut f) } }
    sequences(s, &mut f);
    while s.go() { random(s, &mut f) }
}
