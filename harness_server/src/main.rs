//! C16: as /verif/harness, for the server crate: its own modules are compiled in and its endpoint is called in process.
//! C25: the three listing endpoints, called in process and compared with the library's tables for the type an evaluation uses.
//! Input (C25): `functions|TYPE`, `operators|TYPE` or `constants|TYPE`, TYPE - for none and any other text for itself.
//! Input (C16): `from|ok or err|TEXT`, or `FLAG|JSON` with the request's JSON and FLAG 1 for only_result=true, 0 for none, f for =false.
#![allow(dead_code)]
#[path = "../../../repo/prexel-server/src/endpoints/mod.rs"]
mod endpoints;
#[path = "../../../repo/prexel-server/src/models/mod.rs"]
mod models;
#[path = "../../../repo/prexel-server/src/services/mod.rs"]
mod services;
#[path = "../../harness/src/util.rs"]
mod util;
pub type ApiResponse = Result<actix_web::HttpResponse, actix_web::HttpResponse>;

use actix_web::{test, App};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::str::FromStr;
use util::*;

type Out = Result<String, String>;
fn config() -> Config { Config::default().with_grouping(Grouping::Parenthesis).with_grouping(Grouping::Bracket).with_implicit_mul(true) }
fn set<N>(c: &mut DefaultContext<N>, vars: &Value, parse: impl Fn(&str) -> Out, make: impl Fn(&str) -> N) -> Result<(), String> {
    if let Some(m) = vars.as_object() {
        for (k, v) in m {
            let t = match v { Value::String(s) => s.clone(), v => v.as_f64().unwrap().to_string() };
            parse(&t)?;
            c.set_variable(k, make(&t)).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}
fn p<N: FromStr>(t: &str) -> Out where N::Err: std::fmt::Display { N::from_str(t).map(|_| String::new()).map_err(|e| e.to_string()) }
fn m<N: FromStr>(t: &str) -> N where N::Err: std::fmt::Debug { N::from_str(t).unwrap() }
fn fin<N: std::fmt::Display>(r: prexel::Result<N>) -> Out { r.map(|v| v.to_string()).map_err(|e| e.to_string()) }
/// the outcome in the requested number type, from the evaluator library alone
fn outcome(q: &Value) -> Out {
    let (e, v) = (q["expression"].as_str().unwrap(), &q["variables"]);
    match q["type"].as_str().unwrap_or("decimal") {
        "decimal" => { let mut c = DefaultContext::with_config_decimal(config()); set(&mut c, v, p::<Decimal>, m::<Decimal>)?; fin(Evaluator::with_context(c).eval(e)) }
        "float" => { let mut c = DefaultContext::<f64>::with_config_checked(config()); set(&mut c, v, p::<f64>, m::<f64>)?; fin(Evaluator::with_context(c).eval(e)) }
        "integer" => { let mut c = DefaultContext::<i128>::with_config_checked(config()); set(&mut c, v, p::<i128>, m::<i128>)?; fin(Evaluator::with_context(c).eval(e)) }
        "complex" => { let mut c = DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true)); set(&mut c, v, p::<Complex<f64>>, m::<Complex<f64>>)?; fin(Evaluator::with_context(c).eval(e)) }
        _ => { let mut c = DefaultContext::with_config_binary(config()); set(&mut c, v, p::<i128>, |t| Binary(m(t)))?; fin(Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter())).eval(e)) }
    }
}
fn carries(v: &Value, o: &Out) -> Result<(), String> {
    let f = |k: &str| match &v[k] { Value::Null => None, x => Some(x.as_str().map(|s| s.to_string()).unwrap_or(x.to_string())) };
    let want = match o { Ok(t) => (Some(t.clone()), None), Err(t) => (None, Some(t.clone())) };
    let got = (f("result"), f("error"));
    if got != want { return Err(format!("(result, error) are {:?}, expected {:?}", got, want)) }
    Ok(())
}
fn call(uri: &str, body: &str) -> (u16, Vec<u8>) {
    let (uri, body) = (uri.to_string(), body.to_string());
    actix_web::rt::System::new("t").block_on(async move {
        let mut app = test::init_service(App::new().service(endpoints::eval)).await;
        let req = test::TestRequest::post().uri(&uri).set_payload(body).to_request();
        let res = test::call_service(&mut app, req).await;
        let st = res.status().as_u16();
        (st, test::read_body(res).await.to_vec())
    })
}
fn check(input: &str) -> Result<(), String> {
    let (flag, text) = input.split_once('|').ok_or("input")?;
    if flag == "from" {
        let (k, t) = text.split_once('|').ok_or("input")?;
        let o: Out = if k == "ok" { Ok(t.to_string()) } else { Err(t.to_string()) };
        carries(&serde_json::to_value(models::EvaluatedExpression::from(o.clone())).map_err(|e| e.to_string())?, &o)?;
        if o.is_err() { carries(&serde_json::to_value(models::EvaluatedExpression::with_error(t.to_string())).map_err(|e| e.to_string())?, &o)?; }
        return Ok(())
    }
    let q: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    // where the evaluator library itself panics there is no outcome
    let want = match std::panic::catch_unwind(|| outcome(&q)) { Ok(o) => o, Err(_) => return Ok(()) };
    let e: models::EvalExpression = serde_json::from_value(q.clone()).map_err(|e| e.to_string())?;
    let got = services::eval_expression(e);
    if got != want { return Err(format!("eval_expression gives {:?}, expected {:?}", got, want)) }
    let uri = match flag { "1" => "/eval?only_result=true", "f" => "/eval?only_result=false", _ => "/eval" };
    let (st, body) = call(uri, text);
    if st != 200 { return Err(format!("status {}", st)) }
    if flag == "1" && want.is_ok() {
        if body != want.clone().unwrap().as_bytes() { return Err(format!("only_result body is {:?}, expected {:?}", String::from_utf8_lossy(&body), want)) }
        return Ok(())
    }
    let v: Value = serde_json::from_slice(&body).map_err(|e| format!("response is not JSON: {} ({:?})", e, String::from_utf8_lossy(&body)))?;
    carries(&v, &want)
}
const TYPES: &[Option<&str>] = &[None, Some("decimal"), Some("float"), Some("integer"), Some("complex"), Some("binary")];
const EXPRS: &[&str] = &["1+2", "2i^2", "2i^3i", "3i", "2 i", "2x^2", "i(2)", "1 2", "(1)i", "7/2", "1/3", "b101 & b11", "b1000 > b0111", "x + y", "2x", "x", "(2+3)*[4-1]", "{1+2}", "1/0", "sqrt(2)", "sqrt(-1)", "2 ^ 0.5", "2^100", "2^200", "5!", "3i * 2i", "sin(90)", "", " ", "(", ")", "1 +", "foo", "max(1,2,3)", "sum()", "avg()", "pi", "x = 3", "0.1+0.2", "99999999999999999999999999999999999999999", "é", "\u{1F600}", "1.0", "10 mod 4", "-x", "~b1", "b1 << b10000000", "\"quoted\"", "a\\b", "e", "100000000000000000000 * 100000000000000000000 * 100000000000000000000", "8 - 2i", "5%", "null", "result", "error"];
fn search(s: &mut S) {
    for k in ["ok", "err"] { for t in ["", "0", "null", "error", "result", "-1.5", "a|b", "\u{0}", "\"", "\\", "é", " spaced ", "{\"error\":1}"] { if !s.test(format!("from|{}|{}", k, t)) { return } } }
    let var_sets = [json!(null), json!({}), json!({"x": 2, "y": 3}), json!({"x": "2"}), json!({"x": "0.5"}), json!({"x": 0.5}), json!({"x": "two"}), json!({"x": ""}), json!({"": 1}), json!({"pi": 1}), json!({"x": "1+2i"}), json!({"x": "99999999999999999999999999999999999999999"}), json!({"x": -1e300})];
    for e in EXPRS { for t in TYPES { for v in &var_sets { for f in ["0", "1", "f"] {
        if (f != "0") && v != &var_sets[2] && v != &var_sets[0] { continue }
        let mut q = json!({"expression": e});
        if let Some(t) = t { q["type"] = json!(t) }
        if !v.is_null() { q["variables"] = v.clone() }
        if !s.test(format!("{}|{}", f, q)) { return }
        s.count("requests", 1);
        if !s.go() { return }
    } } } }
    let bits = ["1", "2.5", "x", "y", "+", "-", "*", "/", "^", "(", ")", "[", "]", ",", "max", "sum", "b101", "i", " ", "%", "and", "0", "30"];
    while s.go() {
        let n = s.rng.below(8); let mut e = String::new();
        for _ in 0..n { e.push_str(s.rng.pick(&bits)); if s.rng.chance(1, 2) { e.push(' ') } }
        let mut q = json!({"expression": e});
        if let Some(t) = s.rng.pick(TYPES) { q["type"] = json!(t) }
        if s.rng.chance(1, 2) { q["variables"] = s.rng.pick(&var_sets).clone() }
        let f = *s.rng.pick(&["0", "1"]);
        if !s.test(format!("{}|{}", f, q)) { return }
        s.count("random_requests", 1);
    }
}
/// every name with what should be listed of it, sorted
fn listed(what: &str, ty: &str) -> Vec<String> {
    fn of<N: std::fmt::Display>(c: DefaultContext<'_, N>, what: &str) -> Vec<String> {
        let al = |a: Option<&[&str]>| a.unwrap_or_default().iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let mut v: Vec<String> = match what {
            "constants" => c.constants().iter().map(|(k, v)| json!({"name": k.to_string(), "value": v.to_string()}).to_string()).collect(),
            "functions" => c.functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()}).to_string()).collect(),
            _ => c.binary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()}).to_string())
                .chain(c.unary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()}).to_string())).collect(),
        };
        v.sort(); v
    }
    match ty {
        "float" => of(DefaultContext::<f64>::with_config_checked(config()), what),
        "integer" => of(DefaultContext::<i128>::with_config_checked(config()), what),
        "complex" => of(DefaultContext::<Complex<f64>>::with_config_complex(config().with_complex_number(true)), what),
        "binary" => of(DefaultContext::with_config_binary(config()), what),
        _ => of(DefaultContext::with_config_decimal(config()), what),
    }
}
fn get(uri: &str) -> (u16, Vec<u8>) {
    let uri = uri.to_string();
    actix_web::rt::System::new("t").block_on(async move {
        let mut app = test::init_service(App::new().service(endpoints::get_functions).service(endpoints::get_operators).service(endpoints::get_constants)).await;
        let res = test::call_service(&mut app, test::TestRequest::get().uri(&uri).to_request()).await;
        let st = res.status().as_u16();
        (st, test::read_body(res).await.to_vec())
    })
}
fn check_listing(input: &str) -> Result<(), String> {
    let (what, ty) = input.split_once('|').ok_or("input")?;
    let uri = if ty == "-" { format!("/{}", what) } else { format!("/{}?type={}", what, ty) };
    let (st, body) = get(&uri);
    if st != 200 { return Err(format!("status {}", st)) }
    let v: Value = serde_json::from_slice(&body).map_err(|e| format!("response is not JSON: {}", e))?;
    let es = v.as_array().ok_or("response is not a list")?;
    let mut got: Vec<String> = es.iter().map(|e| e.to_string()).collect();
    got.sort();
    let want = listed(what, ty);
    if got != want { return Err(format!("lists {:?} which an evaluation of the type has not, and lacks {:?}", got.iter().filter(|x| !want.contains(x)).take(4).collect::<Vec<_>>(), want.iter().filter(|x| !got.contains(x)).take(4).collect::<Vec<_>>())) }
    if what == "constants" {
        for e in es {
            let mut q = json!({"expression": e["name"]});
            if TYPES.contains(&Some(ty)) { q["type"] = json!(ty) }
            let r = services::eval_expression(serde_json::from_value(q).map_err(|e| e.to_string())?);
            if r.as_deref().ok() != e["value"].as_str() { return Err(format!("{} is listed as {} and evaluates to {:?}", e["name"], e["value"], r)) }
        }
    }
    Ok(())
}
fn search_listings(s: &mut S) {
    for what in ["functions", "operators", "constants"] { for ty in ["-", "decimal", "float", "integer", "complex", "binary", "Float", "", "nosuch"] {
        if !s.test(format!("{}|{}", what, ty)) { return }
        s.count("listings", 1);
    } }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 || (a[2] != "C16" && a[2] != "C25") { eprintln!("usage: vhs search|trace|replay C16|C25 .."); std::process::exit(2) }
    std::panic::set_hook(Box::new(|_| {}));
    let (check, search): (fn(&str) -> Result<(), String>, fn(&mut S)) = if a[2] == "C25" { (check_listing, search_listings) } else { (check, search) };
    if a[1] == "replay" {
        let input = a[3].clone();
        match big_stack(move || guard(|| check(&input))) { Ok(()) => println!("holds"), Err(e) => { println!("violated: {}", e); std::process::exit(1) } }
    } else {
        let (seed, ms, tr) = (a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(5000), a.get(5).cloned());
        std::process::exit(big_stack(move || { let mut s = S::new(seed, ms, check, tr); search(&mut s); s.finish() }))
    }
}
