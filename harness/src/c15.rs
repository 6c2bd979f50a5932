//! C15: the grouping tables, for every character. Input: code point in hex.
use crate::util::*;
use prexel::context::{Config, Grouping};

const PAIRS: [(char, char); 3] = [('(', ')'), ('[', ']'), ('{', '}')];
pub fn check(input: &str) -> Result<(), String> {
    let c = match char::from_u32(u32::from_str_radix(input, 16).unwrap()) { Some(c) => c, None => return Ok(()) };
    let pair = PAIRS.iter().find(|p| p.0 == c || p.1 == c).copied();
    let (is_open, is_close) = (pair.map_or(false, |p| p.0 == c), pair.map_or(false, |p| p.1 == c));
    let close_for = if is_open { pair.map(|p| p.1) } else { None };
    let open_for = if is_close { pair.map(|p| p.0) } else { None };
    let e = |what: &str| Err(format!("{} is wrong for {:?}", what, c));
    for cfg in [Config::default(), Config::new(), Config::new().with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace)] {
        if cfg.get_group_symbol(c) != pair { return e("get_group_symbol") }
        if cfg.get_group_open_for(c) != open_for { return e("get_group_open_for") }
        if cfg.get_group_close_for(c) != close_for { return e("get_group_close_for") }
        if cfg.is_group_open(c) != is_open { return e("is_group_open") }
        if cfg.is_group_close(c) != is_close { return e("is_group_close") }
    }
    if Grouping::new(c).map(|g| (g.open(), g.close())) != pair { return e("Grouping::new") }
    for g in [Grouping::Parenthesis, Grouping::Bracket, Grouping::Brace] {
        let (o, k) = PAIRS[match g { Grouping::Parenthesis => 0, Grouping::Bracket => 1, Grouping::Brace => 2 }];
        if g.symbols() != (o, k) || g.open() != o || g.close() != k { return e("Grouping::symbols") }
        if g.is_open(c) != (c == o) || g.is_close(c) != (c == k) { return e("Grouping::is_open/is_close") }
        if g.close_for(c) != (if c == o { Some(k) } else { None }) { return e("Grouping::close_for") }
        if g.open_for(c) != (if c == k { Some(o) } else { None }) { return e("Grouping::open_for") }
    }
    Ok(())
}
pub fn search(s: &mut S) {
    for c in 0..=0x10FFFFu32 { if !s.test(format!("{:x}", c)) { return } }
    s.count("all_code_points", 0x110000);
}
