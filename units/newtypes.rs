// Verus unit: the macros of prexel/src/numeric_traits/mod.rs, expanded by the compiler for the types of /verif/newtypes (C11).
// The field type F is an arbitrary type here: its operations are symbols.
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::cmp::Ordering;
verus! {

//@ rewrite ::prexel::num::checked:: ==> prexel_checked::
//@ rewrite . map ( Self :: from ) ==> . map ( Self :: v_wrap )
//@ rewrite < F > :: ==> F ::
//@ rewrite method map

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { _p: () }
pub enum FErr { E }
#[verifier::external_body]
pub struct Formatter { _p: () }
pub enum FmtError { E }
//@ repeat T M S | Add add AddSpecImpl | Sub sub SubSpecImpl | Mul mul MulSpecImpl | Div div DivSpecImpl | Rem rem RemSpecImpl
impl F { pub uninterp spec fn s_@M@(self, o: F) -> F; }
impl core::ops::@T@ for F { type Output = F; #[verifier::external_body] fn @M@(self, o: F) -> (r: F) { unimplemented!() } }
impl @S@<F> for F {
    open spec fn obeys_@M@_spec() -> bool { true }
    open spec fn @M@_req(self, o: F) -> bool { true }
    open spec fn @M@_spec(self, o: F) -> F { self.s_@M@(o) }
}
//@ endrepeat
impl F { pub uninterp spec fn s_neg(self) -> F; }
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> (r: F) { unimplemented!() } }
impl NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F { self.s_neg() }
}
impl F { pub uninterp spec fn s_eq(self, o: F) -> bool; pub uninterp spec fn s_cmp(self, o: F) -> Option<Ordering>; }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self.s_eq(*o) } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> { self.s_cmp(*o) } }
impl F {
//@ repeat M T | to_i64 i64 | to_u64 u64 | to_f64 f64
    pub uninterp spec fn s_@M@(self) -> Option<@T@>;
    #[verifier::external_body]
    pub fn @M@(&self) -> (r: Option<@T@>) ensures r == self.s_@M@() { unimplemented!() }
//@ endrepeat
//@ repeat M T | from_i64 i64 | from_u64 u64 | from_f64 f64
    pub uninterp spec fn s_@M@(n: @T@) -> Option<F>;
    #[verifier::external_body]
    pub fn @M@(n: @T@) -> (r: Option<F>) ensures r == F::s_@M@(n) { unimplemented!() }
//@ endrepeat
    pub uninterp spec fn s_is_zero(self) -> bool;
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == self.s_is_zero() { unimplemented!() }
    pub uninterp spec fn s_lit(n: int) -> F;
    pub uninterp spec fn s_parse(s: Seq<char>) -> core::result::Result<F, FErr>;
    #[verifier::external_body]
    pub fn v_from_str(s: &str) -> (r: core::result::Result<F, FErr>) ensures r == F::s_parse(s@) { unimplemented!() }
    /// what the field writes, as a relation between the formatter before and after and the outcome
    pub uninterp spec fn s_fmt(self, f: Formatter) -> (Formatter, core::result::Result<(), FmtError>);
    #[verifier::external_body]
    pub fn fmt(&self, f: &mut Formatter) -> (r: core::result::Result<(), FmtError>) ensures (*final(f), r) == self.s_fmt(*old(f)) { unimplemented!() }
}
pub mod prexel_checked { use super::*;
//@ repeat T M | CheckedAdd checked_add | CheckedSub checked_sub | CheckedMul checked_mul | CheckedDiv checked_div | CheckedRem checked_rem
pub trait @T@: Sized { spec fn s_@M@(self, o: Self) -> Option<Self>; fn @M@(&self, o: &Self) -> (r: Option<Self>) ensures r == self.s_@M@(*o); }
impl @T@ for F { uninterp spec fn s_@M@(self, o: F) -> Option<F>; #[verifier::external_body] fn @M@(&self, o: &F) -> (r: Option<F>) { unimplemented!() } }
//@ endrepeat
pub trait CheckedNeg: Sized { spec fn s_checked_neg(self) -> Option<Self>; fn checked_neg(&self) -> (r: Option<Self>) ensures r == self.s_checked_neg(); }
impl CheckedNeg for F { uninterp spec fn s_checked_neg(self) -> Option<F>; #[verifier::external_body] fn checked_neg(&self) -> (r: Option<F>) { unimplemented!() } }
}
pub use prexel_checked::*;

//@ repeat MOD K | checked 2 | unchecked 1 | plain 2 | bare 1
pub mod @MOD@ { use super::*;
//@ extract expanded:newtypes | mod @MOD@ / struct W
//@ end
impl core::convert::From<F> for W { fn from(v: F) -> (r: W) ensures r.v == v { W { v } } }
impl FromSpecImpl<F> for W { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: F) -> W { W { v } } }
impl FromSpecImpl<i32> for W { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(n: i32) -> W { W { v: F::s_lit(n as int) } } }
impl core::convert::From<i32> for W { #[verifier::external_body] fn from(n: i32) -> (r: W) ensures r.v == F::s_lit(n as int) { unimplemented!() } }
pub open spec fn wrapped(o: Option<F>, r: Option<W>) -> bool { match o { Some(x) => r matches Some(w) && w.v == x, None => r is None } }
impl W {
/// `Self::from` as a function value
pub fn v_wrap(v: F) -> (r: W) ensures r.v == v { W { v } }
//@ repeat T M | Add add | Sub sub | Mul mul | Div div | Rem rem
//@ extract expanded:newtypes | mod @MOD@ / impl @T@ for W / fn @M@
//@ ret r
//@ spec
        ensures r.v == self.v.s_@M@(other.v),
//@ end
//@ endrepeat
//@ extract expanded:newtypes | mod @MOD@ / impl Neg for W / fn neg
//@ ret r
//@ spec
        ensures r.v == self.v.s_neg(),
//@ end
//@ extract expanded:newtypes | mod @MOD@ / impl Zero for W / fn zero
//@ ret r
//@ spec
        ensures r.v == F::s_lit(0),
//@ end
//@ extract expanded:newtypes | mod @MOD@ / impl Zero for W / fn is_zero
//@ ret r
//@ spec
        ensures r == self.v.s_is_zero(),
//@ end
//@ extract expanded:newtypes | mod @MOD@ / impl One for W / fn one
//@ ret r
//@ spec
        ensures r.v == F::s_lit(1),
//@ end
//@ extract expanded:newtypes | mod @MOD@ / impl PartialOrd for W / fn partial_cmp
//@ rewrite std::cmp::Ordering ==> Ordering
//@ ret r
//@ spec
        ensures r == self.v.s_cmp(other.v),
//@ end
//@ extract expanded:newtypes | mod @MOD@ / impl PartialEq for W / fn eq
//@ ret r
//@ spec
        ensures r == self.v.s_eq(other.v),
//@ end
//@ repeat M T | to_i64 i64 | to_u64 u64 | to_f64 f64
//@ extract expanded:newtypes | mod @MOD@ / impl ToPrimitive for W / fn @M@
//@ ret r
//@ spec
        ensures r == self.v.s_@M@(),
//@ end
//@ endrepeat
//@ repeat M T | from_i64 i64 | from_u64 u64 | from_f64 f64
//@ extract expanded:newtypes | mod @MOD@ / impl FromPrimitive for W / fn @M@
//@ ret r
//@ spec
        ensures wrapped(F::s_@M@(n), r),
//@ end
//@ endrepeat
//@ extract expanded:newtypes | mod @MOD@ / impl Clone for W / fn clone
//@ ret r
//@ spec
        ensures r == *self,
//@ end
}
//@ repeat T | Display | Debug
pub struct Fmt@T@(pub W);
impl Fmt@T@ {
//@ extract expanded:newtypes | mod @MOD@ / impl @T@ for W / fn fmt
//@ rewrite std::fmt::Formatter ==> Formatter
//@ rewrite std::fmt::Result ==> core::result::Result<(), FmtError>
//@ bodyrewrite self . v ==> self . 0 . v
//@ ret r
//@ spec
        ensures (*final(f), r) == self.0.v.s_fmt(*old(f)),
//@ end
}
//@ endrepeat
}
//@ endrepeat
//@ repeat MOD K | checked 2 | plain 2
impl @MOD@::W {
//@ repeat T M | CheckedAdd checked_add | CheckedSub checked_sub | CheckedMul checked_mul | CheckedDiv checked_div | CheckedRem checked_rem
//@ extract expanded:newtypes | mod @MOD@ / impl @T@ for W / fn @M@
//@ ret r
//@ spec
        ensures @MOD@::wrapped(self.v.s_@M@(other.v), r),
//@ end
//@ endrepeat
//@ extract expanded:newtypes | mod @MOD@ / impl CheckedNeg for W / fn checked_neg
//@ ret r
//@ spec
        ensures @MOD@::wrapped(self.v.s_checked_neg(), r),
//@ end
}
//@ endrepeat
//@ repeat MOD K | checked 2 | unchecked 2
impl @MOD@::W {
//@ extract expanded:newtypes | mod @MOD@ / impl FromStr for W / fn from_str
//@ rewrite Self::Err ==> FErr
//@ rewrite -> Result< ==> -> core::result::Result<
//@ rewrite std::str::FromStr::from_str($a) ==> F::v_from_str($a)
//@ ret r
//@ spec
        ensures match F::s_parse(s@) { Ok(x) => r matches Ok(w) && w.v == x, Err(e) => r == Err::<@MOD@::W, FErr>(e) },
//@ end
}
//@ endrepeat

fn main() {}
} // verus!
