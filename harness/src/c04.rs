//! C04: splitting. Input: `<splitter>:<text>` with the text's code points in hex, comma separated.
use crate::util::*;
use prexel::binary::binary_number_splitter;
use prexel::utils::splitter::{rules, DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};

pub fn enc(t: &str) -> String { t.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(",") }
pub fn dec(t: &str) -> String { t.split(',').filter(|x| !x.is_empty()).filter_map(|x| char::from_u32(u32::from_str_radix(x, 16).ok()?)).collect() }

fn digit(c: char) -> bool { ('0'..='9').contains(&c) }
fn alpha(c: char) -> bool { c.is_ascii_alphabetic() || c == '_' }
const OPS: &str = "~`!@#$%^&*-+_:;\"'|\\?.<>/=,";
fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
/// pieces of `s`; None as a class takes one character
fn reference(kind: usize, s: &[char]) -> Vec<String> {
    let ops: Vec<char> = match kind { 4 => OPS.chars().filter(|c| *c != '*').chain(Some('§')).collect(), 5 => vec!['^'], _ => OPS.chars().collect() };
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let run = |from: usize, p: &dyn Fn(char) -> bool| { let mut j = from; while j < s.len() && p(s[j]) { j += 1 } j };
        let j = if kind == 1 && c == 'b' && i + 1 < s.len() && (s[i + 1] == '0' || s[i + 1] == '1') { run(i + 1, &digit) }
            else if digit(c) {
                let mut j = run(i + 1, &digit);
                if j < s.len() && s[j] == '.' { j = run(j + 1, &digit) }
                j
            }
            else if alpha(c) { run(i + 1, &|c| alpha(c) || digit(c)) }
            else if ops.contains(&c) { run(i + 1, &|c| ops.contains(&c)) }
            else { if white(c) && kind != 2 { i += 1; continue } i + 1 };
        out.push(s[i..j].iter().collect());
        i = j;
    }
    out
}
pub fn check(input: &str) -> Result<(), String> {
    let (k, t) = input.split_once(':').unwrap_or(("0", ""));
    let kind: usize = k.parse().unwrap_or(0);
    let text = dec(t);
    let b = || DefaultSplitterBuilder::new().rule(rules::SplitNumeric).rule(rules::SplitIdentifier);
    let got = match kind {
        1 => binary_number_splitter().split_into_tokens(&text),
        2 => DefaultSplitter::new(SplitWhitespaceOption::None).split_into_tokens(&text),
        3 => b().rule(rules::SplitWithOperators::new()).whitespace(SplitWhitespaceOption::Remove).build().split_into_tokens(&text),
        4 => { let mut o = rules::SplitWithOperators::builder(); o.add_operator('§'); b().insert_rule(1, o.except('*').build()).whitespace(SplitWhitespaceOption::Remove).build().split_into_tokens(&text) }
        5 => { let mut o = rules::SplitWithOperatorsBuilder::empty(); o.add_operator('^'); b().rule(o.build()).whitespace(SplitWhitespaceOption::Remove).build().split_into_tokens(&text) }
        6 => DefaultSplitter::with_numeric_rule(rules::SplitNumeric).split_into_tokens(&text),
        7 => DefaultSplitter::with_identifier_rule(rules::SplitIdentifier).split_into_tokens(&text),
        _ => DefaultSplitter::default().split_into_tokens(&text),
    };
    let chars: Vec<char> = text.chars().collect();
    // kind 4 puts the operators before the identifiers: '_' begins an operator run there
    if kind == 4 && chars.contains(&'_') { return Ok(()) }
    let want = reference(kind, &chars);
    if got != want { return Err(format!("{:?} is split into {:?}, expected {:?}", text, got, want)) }
    Ok(())
}
pub fn random_text(r: &mut Rng, max: usize) -> String {
    const SETS: [&str; 8] = ["abzAZb_", "0123456789", ".", "~`!@#$%^&*-+_:;\"'|\\?.<>/=,", "()[]{}", " \t\n\u{a0}\u{2003}\u{3000}", "éßİıſK日本𝟙٣०²½µ\u{301}", "01b"];
    let n = r.below(max + 1);
    let mut s = String::new();
    let (mut set, mut left) = (0, 0);
    for _ in 0..n {
        if left == 0 { set = r.below(9); left = 1 + r.below(4); }
        left -= 1;
        if set == 8 { if let Some(c) = char::from_u32(r.below(0x11000) as u32) { s.push(c) } continue }
        let c: Vec<char> = SETS[set].chars().collect();
        s.push(*r.pick(&c));
    }
    s
}
pub fn search(s: &mut S) {
    // every code point, alone and followed by a letter, a digit and an operator
    for c in 0..=0x10FFFFu32 {
        if char::from_u32(c).is_none() { continue }
        if c < 0x3100 || c % 97 == 0 {
            for k in 0..2 { for t in ["", ",61", ",31", ",2b", ",2e,31"] { if !s.test(format!("{}:{:x}{}", k, c, t)) { return } } }
            if !s.test(format!("0:61,{:x},62,31,{:x},2b,{:x}", c, c, c)) { return }
        }
    }
    // all short texts over one character of each class
    const A: [char; 9] = ['b', '1', '2', '.', '+', ' ', '(', '_', 'é'];
    for len in 0..=5 {
        let mut ix = vec![0usize; len];
        'all: loop {
            let t: String = ix.iter().map(|i| A[*i]).collect();
            for k in 0..(if len <= 4 { 8 } else { 2 }) { if !s.test(format!("{}:{}", k, enc(&t))) { return } }
            let mut p = 0;
            loop { if p == len { break 'all } ix[p] += 1; if ix[p] < A.len() { break } ix[p] = 0; p += 1; }
            if !s.go() { return }
        }
        s.count(&format!("all_texts_of_length_{}", len), 1);
    }
    while s.go() {
        let m = if s.rng.chance(1, 50) { 3000 } else { 40 };
        let t = random_text(&mut s.rng, m);
        let k = s.rng.below(8);
        if !s.test(format!("{}:{}", k, enc(&t))) { return }
        s.count("random", 1);
    }
}
