use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'t, T>(&mut self, v: &'t [T]) -> &'t T { &v[self.below(v.len())] }
}

/// run on a thread with a large but fixed stack
pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(3))
}
/// a panic is a violation
pub fn guard(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(&e))),
    }
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// search state
pub struct S {
    pub rng: Rng,
    pub seed: u64,
    deadline: Instant,
    check: fn(&str) -> Result<(), String>,
    pub checked: u64,
    pub counters: Vec<(String, u64)>,
    found: Option<(String, String)>,
    current: Arc<Mutex<String>>,
    progress: Arc<AtomicU64>,
    trace: Option<String>,
}
impl S {
    pub fn new(seed: u64, ms: u64, check: fn(&str) -> Result<(), String>, trace: Option<String>) -> S {
        let current = Arc::new(Mutex::new(String::new()));
        let progress = Arc::new(AtomicU64::new(0));
        let (c, p) = (current.clone(), progress.clone());
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let now = p.load(Ordering::Relaxed);
                if now != last { last = now; since = Instant::now(); continue }
                let cur = match c.try_lock() { Ok(g) => g.clone(), Err(_) => continue };
                if since.elapsed() > Duration::from_secs(8) && !cur.is_empty() {
                    println!("WITNESS\t{}\tdoes not terminate (no result after 8 s)", cur);
                    std::process::exit(1);
                }
            }
        });
        S { rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(99)), seed, deadline: Instant::now() + Duration::from_millis(ms), check, checked: 0,
            counters: vec![], found: None, current, progress, trace }
    }
    /// false once a witness is found or the time is up
    pub fn go(&self) -> bool { self.found.is_none() && Instant::now() < self.deadline }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.iter_mut().find(|c| c.0 == k) { Some(c) => c.1 += n, None => self.counters.push((k.to_string(), n)) }
    }
    /// check one input; true if it holds
    pub fn test(&mut self, input: String) -> bool {
        if self.found.is_some() { return false }
        { let mut g = self.current.lock().unwrap(); g.clear(); g.push_str(&input); }
        if let Some(t) = &self.trace { let _ = std::fs::write(t, &input); }
        let ck = self.check;
        let r = guard(|| ck(&input));
        self.checked += 1;
        self.progress.fetch_add(1, Ordering::Relaxed);
        self.current.lock().unwrap().clear();
        match r {
            Ok(()) => true,
            Err(e) if std::env::var_os("VH_SURVEY").is_some() => { println!("FAILS\t{}\t{}", input, e); true }
            Err(e) => { self.found = Some((input, e)); false }
        }
    }
    pub fn finish(self) -> i32 {
        print!("STATS\tchecked={}", self.checked);
        for (k, v) in &self.counters { print!("\t{}={}", k, v) }
        println!();
        match self.found {
            Some((i, e)) => { println!("WITNESS\t{}\t{}", i.replace(['\n', '\t'], " "), e.replace(['\n', '\t'], " ")); 1 }
            None => 0,
        }
    }
}
