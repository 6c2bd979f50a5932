// Verus unit: prexel/src/evaluator.rs (C01, C02, C03; theorem of C23).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::rc::Rc;
use std::collections::HashSet;
use std::fmt::Debug;
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite format!($$a) ==> v_fmt()
//@ rewrite tokens.iter().enumerate().peekable() ==> v_peek_enumerate(tokens)
//@ rewrite '*'.to_string() ==> v_string_of_star()
//@ rewrite debug_assert_eq!($a, None) ==> assert($a is None)
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method map_or
//@ rewrite method and_then

//@ include eval_prelude.inc
//@ include eval_spec.inc
//@ include eval_yard.inc
//@ include eval_c02.inc
//@ include eval_c01.inc
//@ include eval_rpn.inc
//@ include eval_props.inc
//@ include usual.inc
//@ include order_thm.inc

fn main() {}
} // verus!
