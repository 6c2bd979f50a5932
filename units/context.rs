// Verus unit: prexel/src/context.rs, DefaultContext (C07), on top of the case-insensitive names (C06).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::rc::Rc;
use std::collections::HashSet;
use std::fmt::Debug;
verus! {
//@ rewrite crate::Result ==> Result
//@ rewrite format!($$a) ==> v_fmt()
//@ include eval_prelude.inc
//@ include icase.inc
//@ include icase2.inc
//@ include icase3.inc
//@ include context.inc
fn main() {}
} // verus!
