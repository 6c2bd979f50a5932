// Verus unit: case-insensitive names (C06).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
//@ include icase.inc
//@ include icase2.inc
//@ include icase3.inc
fn main() {}
} // verus!
