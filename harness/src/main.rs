//! Concrete search and replay against the real crate.
//!   vh search PROP SEED MS     explore inputs of PROP for MS milliseconds; a failing input is printed as
//!                              "WITNESS\t<input>\t<what fails>" and the exit status is 1
//!   vh replay PROP INPUT       check one input; exit 1 if the property fails on it
//!   vh trace PROP SEED MS FILE as search, writing each input to FILE before it is checked
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
#[cfg(feature = "newtypes")]
mod c11;
#[cfg(feature = "eval")]
mod c14;
mod c12;
mod c13;
mod c15;
mod c19;
mod c20;
mod c21;
mod c23;
mod c24;
mod c26;
mod exprs;
mod util;
use util::*;

pub struct Prop {
    pub search: fn(&mut S),
    pub check: fn(&str) -> Result<(), String>,
}

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop { search: c01::search, check: c01::check },
        "C02" => Prop { search: c02::search, check: c02::check },
        "C03" => Prop { search: c03::search, check: c03::check },
        "C04" => Prop { search: c04::search, check: c04::check },
        "C05" => Prop { search: c05::search, check: c05::check },
        "C06" => Prop { search: c06::search, check: c06::check },
        "C07" => Prop { search: c07::search, check: c07::check },
        "C08" => Prop { search: c08::search, check: c08::check },
        "C09" => Prop { search: c09::search, check: c09::check },
        #[cfg(feature = "eval")]
        "C14" => Prop { search: c14::search, check: c14::check },
        "C12" => Prop { search: c12::search, check: c12::check },
        "C13" => Prop { search: c13::search, check: c13::check },
        "C19" => Prop { search: c19::search, check: c19::check },
        "C20" => Prop { search: c20::search, check: c20::check },
        "C21" => Prop { search: c21::search, check: c21::check },
        "C23" => Prop { search: c23::search, check: c23::check },
        "C24" => Prop { search: c24::search, check: c24::check },
        "C26" => Prop { search: c26::search, check: c26::check },
        "C10" => Prop { search: c10::search, check: c10::check },
        #[cfg(feature = "newtypes")]
        "C11" => Prop { search: c11::search, check: c11::check },
        "C15" => Prop { search: c15::search, check: c15::check },
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! { eprintln!("usage: vh search|trace|replay PROP .."); std::process::exit(2) };
    if a.len() < 4 { usage() }
    std::panic::set_hook(Box::new(|_| {}));
    let p = match prop(&a[2]) { Some(p) => p, None => usage() };
    match a[1].as_str() {
        "replay" => {
            let input = a[3].clone();
            let r = big_stack(move || guard(|| (p.check)(&input)));
            match r {
                Ok(()) => println!("holds"),
                Err(e) => { println!("violated: {}", e); std::process::exit(1) }
            }
        }
        "search" | "trace" => {
            let seed: u64 = a[3].parse().unwrap_or(1);
            let ms: u64 = a[4].parse().unwrap_or(5000);
            let trace = a.get(5).cloned();
            let code = big_stack(move || {
                let mut s = S::new(seed, ms, p.check, trace);
                (p.search)(&mut s);
                s.finish()
            });
            std::process::exit(code)
        }
        _ => usage(),
    }
}
