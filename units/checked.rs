// Verus unit: prexel/src/num.rs, prexel/src/ops/checked.rs, max/min of prexel/src/ops/mod.rs (C08, C09).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::pervasive::cloned;
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method ok_or_else

//@ include num.inc
//@ include c08.inc
//@ include c09.inc
//@ include c09u.inc

fn main() {}
} // verus!
