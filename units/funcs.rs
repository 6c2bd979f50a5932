// Verus unit: the built-in functions of the float, integer, decimal and complex contexts (C13, C19).
// The library's elementary functions are symbols; what is proved is which of them each built-in applies, to what,
// and for which argument counts.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite Error::new($a, $$b) ==> Error::new_msg($a)
//@ rewrite method ok_or_else
//@ rewrite method and_then
//@ rewrite method map_or

#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
    #[verifier::external_body]
    pub fn new_msg(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub open spec fn count_err<T>(r: Result<T>) -> bool { match r { Ok(_) => false, Err(e) => e.skind() is InvalidArgumentCount } }
pub open spec fn other_err<T>(r: Result<T>) -> bool { r is Err && !count_err(r) }

//@ include funcs_f.inc
//@ include funcs_d.inc
//@ include funcs_c.inc

fn main() {}
} // verus!
