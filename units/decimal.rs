// Verus unit: prexel/src/decimal (C12, C20; the decimal sum/product/avg of C09 and C13).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {

//@ decimals
//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method ok_or_else
//@ rewrite method and_then
//@ rewrite method map_or

//@ include dec_num.inc
pub mod consts { use super::*;
//@ consts prexel/src/decimal/mod.rs | mod consts
}
pub mod ext { use super::*; use core::ops::Neg;
//@ include dec_ext.inc
//@ include dec_ops.inc
}

fn main() {}
} // verus!
