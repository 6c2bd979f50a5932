//! C14: the bounded history against a plain list. Input: "cap|op op .." with
//! p<v> push, c continue on a clone, o pop, r<i> remove, g<i> get, m<i> get_mut, d dereferenced write of element 0.
use crate::util::*;
#[allow(dead_code)]
#[path = "/repo/eval/src/collections/carray.rs"]
mod carray;
use carray::CircularArray;

pub fn check(input: &str) -> Result<(), String> {
    run(input, |v| v)?;
    run(input, |v| v as u8)?;
    run(input, |v| v.to_string())?;
    run(input, |_| ())
}
fn run<T: Clone + PartialEq + std::fmt::Debug>(input: &str, mk: fn(u64) -> T) -> Result<(), String> {
    let (cap, ops) = input.split_at(input.find('|').unwrap());
    let cap: usize = cap.parse().unwrap();
    let mut a: CircularArray<T> = CircularArray::new(cap);
    let mut m: Vec<T> = vec![];
    for (n, op) in ops[1..].split(' ').filter(|s| !s.is_empty()).enumerate() {
        let v: u64 = op[1..].parse().unwrap_or(0);
        let i = v as usize;
        let ok = match &op[..1] {
            "p" => { a.push(mk(v)); if cap > 0 { if m.len() == cap { m.remove(0); } m.push(mk(v)) } true }
            "o" => a.pop() == m.pop(),
            "r" => a.remove(i) == (if i < m.len() { Some(m.remove(i)) } else { None }),
            "g" => a.get(i) == m.get(i),
            "m" => { if let Some(x) = a.get_mut(i) { *x = mk(v + 1000) } if let Some(x) = m.get_mut(i) { *x = mk(v + 1000) } true }
            "c" => { let c = a.clone(); a.push(mk(7)); a = c; true }
            _ => { let (x, y): (&mut [T], &mut [T]) = (&mut a, &mut m); x.reverse(); y.reverse(); true }
        };
        if !ok { return Err(format!("operation {} (`{}`) returns something else than the list model", n, op)) }
        if a.len() != m.len() || a.capacity() != cap || a.iter().collect::<Vec<_>>() != m.iter().collect::<Vec<_>>() || *<CircularArray<T> as std::ops::Deref>::deref(&a) != m[..] || (0..m.len()).any(|i| a[i] != m[i]) {
            return Err(format!("after operation {} (`{}`) the history is {:?} (length {}) instead of {:?}", n, op, a.iter().collect::<Vec<_>>(), a.len(), m))
        }
        if a.len() > cap { return Err(format!("holds {} entries with capacity {}", a.len(), cap)) }
    }
    let c = a.clone();
    if c.into_iter().collect::<Vec<_>>() != m { return Err("into_iter yields something else".to_string()) }
    Ok(())
}
pub fn search(s: &mut S) {
    // all operation sequences of length <= 6 over 6 operations, capacities 0..=3
    for cap in 0..=3usize {
        for len in 0..=6usize {
            for code in 0..6usize.pow(len as u32) {
                if !s.go() { break }
                let (mut k, mut v) = (code, vec![]);
                for j in 0..len { v.push(match k % 6 { 0 | 1 => format!("p{}", j + 1), 2 => "o".into(), 3 => "r1".into(), 4 => "c".into(), _ => "g1".to_string() }); k /= 6 }
                s.test(format!("{}|{}", cap, v.join(" ")));
                s.count("exhaustive_short_histories", 1);
            }
        }
    }
    let mut v = 0;
    while s.go() {
        let cap = if s.rng.chance(1, 20) { 1000 } else { s.rng.below(12) };
        let n = if s.rng.chance(1, 200) { 3000 } else { s.rng.below(60) };
        let ops: Vec<String> = (0..n).map(|_| { v += 1; match s.rng.below(13) {
            0..=6 => format!("p{}", v), 7 => "o".into(), 8 => format!("r{}", s.rng.below(cap + 3)), 9 => format!("g{}", if s.rng.chance(1, 9) { u64::MAX } else { s.rng.below(cap + 3) as u64 }),
            10 => format!("m{}", s.rng.below(cap + 3)), 11 => "c".into(), _ => "d".into() } }).collect();
        s.test(format!("{}|{}", cap, ops.join(" ")));
        s.count("random_histories", 1);
    }
}
