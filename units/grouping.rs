// Verus unit: the grouping tables of prexel/src/context.rs (C15).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
//@ rewrite method map_or
//@ rewrite method and_then
//@ rewrite method map
//@ include grouping.inc
/// C15, over the functional contracts of every table function above
pub proof fn theorem_c15(c: char, d: char)
    ensures
        // opener, closer or neither
        !(s_is_open(c) && s_is_close(c)),
        s_is_open(c) <==> close_for_s(c) is Some,
        s_is_close(c) <==> open_for_s(c) is Some,
        g_of(c) is Some <==> s_is_open(c) || s_is_close(c),
        // mutually inverse
        close_for_s(c) == Some(d) <==> open_for_s(d) == Some(c),
        close_for_s(c) matches Some(e) ==> s_is_close(e),
        open_for_s(c) matches Some(e) ==> s_is_open(e),
        // both symbols of a pair belong to the same pair
        g_of(c) matches Some(g) ==> g_of(g_open(g)) == Some(g) && g_of(g_close(g)) == Some(g) && (c == g_open(g) || c == g_close(g)) && g_open(g) != g_close(g),
{ }
fn main() {}
} // verus!
