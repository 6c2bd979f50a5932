// Verus unit: the string splitters of prexel/src/utils/splitter.rs (C04).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
//@ include splitter.inc
//@ extract prexel/src/binary/mod.rs | fn binary_number_splitter
//@ ret r
//@ spec
        ensures binary_rules(r.rules@)
//@ end

//@ include c04.inc
/// the facades: the precondition of split_into_tokens is met by every splitter the crate builds
fn split_default(text: &str) -> (r: Vec<String>)
    ensures sviews(r@) == dsplit(false, text@), cat(sviews(r@)) == nows(text@), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] sviews(r@)[k]).len() > 0
{
    let d = DefaultSplitter::default();
    proof { theorem_c04(false, d.rules@, text@); }
    d.split_into_tokens(text)
}
fn split_binary(text: &str) -> (r: Vec<String>)
    ensures sviews(r@) == dsplit(true, text@), cat(sviews(r@)) == nows(text@), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] sviews(r@)[k]).len() > 0
{
    let d = binary_number_splitter();
    proof { theorem_c04(true, d.rules@, text@); }
    d.split_into_tokens(text)
}
fn main() {}
} // verus!
