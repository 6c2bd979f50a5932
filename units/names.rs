// Verus unit: the functions and constants every built-in context offers, by name (C24), on top of the context's own contracts (C07).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::rc::Rc;
use std::collections::HashSet;
use std::fmt::Debug;
verus! {
//@ rewrite crate::Result ==> Result
//@ rewrite format!($$a) ==> v_fmt()
//@ include eval_prelude.inc
//@ include icase.inc
//@ include icase2.inc
//@ include icase3.inc
//@ include context.inc
//@ include ascii.inc
//@ include names.inc
fn main() {}
} // verus!
