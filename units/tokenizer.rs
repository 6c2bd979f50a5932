// Verus unit: prexel/src/tokenizer.rs (C05), on top of the splitters (C04).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::rc::Rc;
use std::collections::HashSet;
use std::fmt::Debug;
use std::marker::PhantomData;
verus! {
//@ rewrite crate::Result ==> Result
//@ rewrite format!($$a) ==> v_fmt()
//@ include eval_prelude.inc
//@ include splitter.inc
//@ include c04.inc
//@ include tokenizer.inc
/// the facade: text to tokens with the default tokenizer
fn tokenize_default<'a, N: FromStr + 'a, C: Context<'a, N>>(t: &Tokenizer<'a, N, C, DefaultSplitter<'a>>, context: &C, text: &str) -> (r: Result<Vec<Token<N>>>)
    requires default_rules(t.splitter.rules@)
    ensures match r {
        Ok(v) => !s_blank(text@) && s_toks(context.cx(), dsplit(false, text@), 0) == Some(tvs(v@)),
        Err(_) => s_blank(text@) || s_toks(context.cx(), dsplit(false, text@), 0) is None }
{
    proof { theorem_c04(false, t.splitter.rules@, text@); }
    t.tokenize(context, text)
}
fn main() {}
} // verus!
