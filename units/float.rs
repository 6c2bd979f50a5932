// Verus unit: the operators over floats and complex numbers (C26): prexel/src/ops/checked.rs, unchecked.rs and mod.rs,
// complex/mod.rs, and the float half of num.rs.  The machine's float operations are symbols; what is proved is which of
// them each operator applies, to what, and when it is an error instead.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::ops::{Add, Sub, Mul, Div, Rem, Neg};
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method ok_or_else
//@ rewrite method map_or
//@ rewrite method and_then

#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub open spec fn err_is<N>(r: Result<N>, k: ErrorKind) -> bool { r matches Err(e) && e.skind() == k }
pub open spec fn ok_or<N>(r: Result<N>, v: Option<N>, k: ErrorKind) -> bool { match v { Some(x) => r == Ok::<N, Error>(x), None => err_is(r, k) } }
/// clone gives the same value
pub open spec fn clone_ok<N: Clone>() -> bool { forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> a == b }

// ---------------------------------------------------------------- num_traits (contracts of the dependency)
pub trait Zero: Sized {
    spec fn s_zero() -> Self;
    spec fn s_is_zero(self) -> bool;
    fn zero() -> (r: Self) ensures r == Self::s_zero();
    fn is_zero(&self) -> (r: bool) ensures r == self.s_is_zero();
}
pub trait One: Sized { spec fn s_one() -> Self; spec fn s_is_one(self) -> bool; fn one() -> (r: Self) ensures r == Self::s_one(); fn is_one(&self) -> (r: bool) ensures r == self.s_is_one(); }
pub trait ToPrimitive: Sized { spec fn s_to_f64(self) -> Option<f64>; fn to_f64(&self) -> (r: Option<f64>) ensures r == self.s_to_f64(); }
pub trait FromPrimitive: Sized { spec fn s_from_f64(n: f64) -> Option<Self>; fn from_f64(n: f64) -> (r: Option<Self>) ensures r == Self::s_from_f64(n); }
pub uninterp spec fn s_powf(x: f64, e: f64) -> f64;
pub assume_specification[f64::powf](x: f64, e: f64) -> (r: f64) ensures r == s_powf(x, e);

/// the library's gamma function: a symbol here (that it ends: unit fact, C21; its accuracy: the search)
pub uninterp spec fn s_gamma(x: f64) -> f64;
#[verifier::external_body]
pub fn gamma(x: f64) -> (r: f64) ensures r == s_gamma(x) { unimplemented!() }
/// 64-bit float addition and multiplication are functions of their operands
pub axiom fn ax_f64()
    ensures <f64 as AddSpec<f64>>::obeys_add_spec(), <f64 as MulSpec<f64>>::obeys_mul_spec(),
        forall|a: f64, b: f64| #[trigger] a.mul_req(b), forall|a: f64, b: f64| #[trigger] a.add_req(b);

// ---------------------------------------------------------------- factorials: the descending product
pub open spec fn ge<N: PartialOrd>(a: N, b: N) -> bool { s_ge(a, b) }
pub open spec fn gt<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn lt<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
/// the end of the product: `n` is left below one; what is left besides zero counts by the gamma function, in 64-bit floats
pub open spec fn tail_is<N: Zero + ToPrimitive + FromPrimitive>(t: N, n: N, r: Result<N>) -> bool {
    if n.s_is_zero() { r == Ok::<N, Error>(t) }
    else { match (t.s_to_f64(), n.s_to_f64()) {
        (Some(t), Some(n)) => ok_or(r, N::s_from_f64(t.mul_spec(s_gamma(n.add_spec(1f64)))), ErrorKind::Overflow),
        _ => err_is(r, ErrorKind::Overflow) } }
}
// for the checked operations: start, value, and the number of factors
pub open spec fn cfall<N: One + CheckedSub>(v: N, k: nat) -> Option<N> decreases k {
    if k == 0 { Some(v) } else { match cfall(v, (k - 1) as nat) { Some(n) => n.s_sub(N::s_one()), None => None } }
}
pub open spec fn cprod<N: One + CheckedSub + CheckedMul>(s: N, v: N, k: nat) -> Option<N> decreases k {
    if k == 0 { Some(s) } else { match (cprod(s, v, (k - 1) as nat), cfall(v, (k - 1) as nat)) { (Some(t), Some(n)) => t.s_mul(n), _ => None } }
}
/// r is the product of s and the k numbers v, v - 1, .. (all at least one), ended as the number left over says
pub open spec fn cfact<N: Zero + One + CheckedSub + CheckedMul + PartialOrd + ToPrimitive + FromPrimitive>(s: N, v: N, k: nat, r: Result<N>) -> bool {
    &&& forall|i: nat| i < k ==> (#[trigger] cfall(v, i) matches Some(n) && ge(n, N::s_one()))
    &&& match (cprod(s, v, k), cfall(v, k)) {
        (Some(t), Some(n)) => if !ge(n, N::s_one()) { tail_is(t, n, r) }
            // an overflow, or a product that absorbs the factors left
            else { match t.s_mul(n) { None => err_is(r, ErrorKind::Overflow),
                Some(p) => (gt(n, N::s_one()) && p.eq_spec(&t) && r == Ok::<N, Error>(p)) || (n.s_sub(N::s_one()) is None && err_is(r, ErrorKind::Overflow)) } },
        _ => false }
}
pub open spec fn cfact_some<N: Zero + One + CheckedSub + CheckedMul + PartialOrd + ToPrimitive + FromPrimitive>(s: N, v: N, r: Result<N>) -> bool { exists|k: nat| #[trigger] cfact(s, v, k, r) }
pub open spec fn ufall<N: One + Sub<N, Output = N>>(v: N, k: nat) -> N decreases k {
    if k == 0 { v } else { ufall(v, (k - 1) as nat).sub_spec(N::s_one()) }
}
pub open spec fn uprod<N: One + Sub<N, Output = N> + Mul<N, Output = N>>(s: N, v: N, k: nat) -> N decreases k {
    if k == 0 { s } else { uprod(s, v, (k - 1) as nat).mul_spec(ufall(v, (k - 1) as nat)) }
}
pub open spec fn ufact<N: Zero + One + Sub<N, Output = N> + Mul<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive>(s: N, v: N, k: nat, r: Result<N>) -> bool {
    &&& forall|i: nat| i < k ==> ge(#[trigger] ufall(v, i), N::s_one())
    &&& if !ge(ufall(v, k), N::s_one()) { tail_is(uprod(s, v, k), ufall(v, k), r) }
        else { gt(ufall(v, k), N::s_one()) && uprod(s, v, k).mul_spec(ufall(v, k)).eq_spec(&uprod(s, v, k)) && r == Ok::<N, Error>(uprod(s, v, k).mul_spec(ufall(v, k))) }
}
pub open spec fn ufact_some<N: Zero + One + Sub<N, Output = N> + Mul<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive>(s: N, v: N, r: Result<N>) -> bool { exists|k: nat| #[trigger] ufact(s, v, k, r) }

// ---------------------------------------------------------------- prexel/src/num.rs: the checked operations
//@ repeat TRAIT F S | CheckedAdd checked_add s_add | CheckedSub checked_sub s_sub | CheckedMul checked_mul s_mul | CheckedDiv checked_div s_div | CheckedRem checked_rem s_rem
pub trait @TRAIT@: Sized {
    spec fn @S@(self, o: Self) -> Option<Self>;
//@ extract prexel/src/num.rs | mod checked / trait @TRAIT@ / fn @F@
//@ ret r
//@ spec
        ensures r == self.@S@(*other)
//@ end
}
//@ endrepeat
pub trait CheckedNeg: Sized {
    spec fn s_neg(self) -> Option<Self>;
//@ extract prexel/src/num.rs | mod checked / trait CheckedNeg / fn checked_neg
//@ ret r
//@ spec
        ensures r == self.s_neg()
//@ end
}
// the float operations, each a symbol
//@ rewrite * self + * other ==> v_add ( self , other )
//@ rewrite self + other ==> v_add ( self , other )
//@ rewrite * self - * other ==> v_sub ( self , other )
//@ rewrite self - other ==> v_sub ( self , other )
//@ rewrite * self * * other ==> v_mul ( self , other )
//@ rewrite self * other ==> v_mul ( self , other )
//@ rewrite * self / * other ==> v_div ( self , other )
//@ rewrite self / other ==> v_div ( self , other )
//@ rewrite * self % * other ==> v_rem ( self , other )
//@ rewrite self % other ==> v_rem ( self , other )
//@ rewrite - * self ==> v_neg ( self )
//@ rewrite num_traits :: Zero :: is_zero ( other ) ==> other . is_zero ( )
//@ rewrite * other == 0.0 ==> other . is_zero ( )
//@ rewrite * other != 0.0 ==> ! other . is_zero ( )
pub trait Flt: Sized {
    spec fn f_add(self, o: Self) -> Self;
    spec fn f_sub(self, o: Self) -> Self;
    spec fn f_mul(self, o: Self) -> Self;
    spec fn f_div(self, o: Self) -> Self;
    spec fn f_rem(self, o: Self) -> Self;
    spec fn f_neg(self) -> Self;
}
//@ repeat OP S | v_add f_add | v_sub f_sub | v_mul f_mul | v_div f_div | v_rem f_rem
#[verifier::external_body]
pub fn @OP@<F: Flt>(a: &F, b: &F) -> (r: F) ensures r == a.@S@(*b) { unimplemented!() }
//@ endrepeat
#[verifier::external_body]
pub fn v_neg<F: Flt>(a: &F) -> (r: F) ensures r == a.f_neg() { unimplemented!() }
//@ repeat T | f32 | f64
impl Flt for @T@ {
    uninterp spec fn f_add(self, o: @T@) -> @T@;
    uninterp spec fn f_sub(self, o: @T@) -> @T@;
    uninterp spec fn f_mul(self, o: @T@) -> @T@;
    uninterp spec fn f_div(self, o: @T@) -> @T@;
    uninterp spec fn f_rem(self, o: @T@) -> @T@;
    uninterp spec fn f_neg(self) -> @T@;
}
impl Zero for @T@ {
    uninterp spec fn s_zero() -> @T@;
    uninterp spec fn s_is_zero(self) -> bool;
    #[verifier::external_body]
    fn zero() -> @T@ { 0.0 }
    #[verifier::external_body]
    fn is_zero(&self) -> bool { *self == 0.0 }
}
impl CheckedNeg for @T@ {
    open spec fn s_neg(self) -> Option<@T@> { Some(self.f_neg()) }
//@ extract expanded:prexel | mod num / mod checked / impl CheckedNeg for @T@ / fn checked_neg
//@ end
}
//@ endrepeat
//@ repeat T TRAIT F S B | f32 CheckedAdd checked_add s_add f_add | f32 CheckedSub checked_sub s_sub f_sub | f32 CheckedMul checked_mul s_mul f_mul | f64 CheckedAdd checked_add s_add f_add | f64 CheckedSub checked_sub s_sub f_sub | f64 CheckedMul checked_mul s_mul f_mul
impl @TRAIT@ for @T@ {
    open spec fn @S@(self, o: @T@) -> Option<@T@> { Some(self.@B@(o)) }
//@ extract expanded:prexel | mod num / mod checked / impl @TRAIT@ for @T@ / fn @F@
//@ end
}
//@ endrepeat
//@ repeat T TRAIT F S B | f32 CheckedDiv checked_div s_div f_div | f32 CheckedRem checked_rem s_rem f_rem | f64 CheckedDiv checked_div s_div f_div | f64 CheckedRem checked_rem s_rem f_rem
impl @TRAIT@ for @T@ {
    open spec fn @S@(self, o: @T@) -> Option<@T@> { if o.s_is_zero() { None } else { Some(self.@B@(o)) } }
//@ extract expanded:prexel | mod num / mod checked / impl @TRAIT@ for @T@ / fn @F@
//@ end
}
//@ endrepeat

// ---------------------------------------------------------------- ops/checked.rs
pub mod checked {
use super::*;
//@ repeat STRUCT BOUNDS S | AddOperator CheckedAdd s_add | SubOperator CheckedSub s_sub | MulOperator CheckedMul s_mul
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> pub fn call < N : @BOUNDS@ > (
//@ ret r
//@ spec
        ensures ok_or(r, left.@S@(right), ErrorKind::Overflow),
//@ end
}
//@ endrepeat
//@ repeat STRUCT BOUNDS S | DivOperator CheckedDiv s_div | ModOperator CheckedRem s_rem
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> pub fn call < N : @BOUNDS@ + Zero > (
//@ ret r
//@ spec
        ensures right.s_is_zero() ==> err_is(r, ErrorKind::DivisionByZero),
            !right.s_is_zero() ==> ok_or(r, left.@S@(right), ErrorKind::Overflow),
//@ end
}
//@ endrepeat
pub struct UnaryMinus;
impl UnaryMinus {
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for UnaryMinus / fn call
//@ rewrite fn call ( ==> pub fn call < N : CheckedNeg > (
//@ ret r
//@ spec
        ensures ok_or(r, value.s_neg(), ErrorKind::Overflow),
//@ end
}
pub struct AbsFunction;
impl AbsFunction {
//@ extract prexel/src/ops/checked.rs | impl Function<N> for AbsFunction / fn call
//@ rewrite fn call ( ==> pub fn call < N : Zero + PartialOrd + CheckedNeg + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_partial_cmp_spec(),
        ensures args@.len() != 1 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() == 1 ==> if s_ge(args@[0], N::s_zero()) { r == Ok::<N, Error>(args@[0]) } else { ok_or(r, args@[0].s_neg(), ErrorKind::Overflow) },
//@ end
}
pub struct Factorial;
impl Factorial {
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for Factorial / fn call
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@ rewrite fn call ( ==> pub fn call < N : Clone + Zero + One + CheckedSub + CheckedMul + PartialOrd + ToPrimitive + FromPrimitive > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_eq_spec(), N::obeys_partial_cmp_spec(),
        ensures lt(value, N::s_zero()) ==> err_is(r, ErrorKind::NegativeValue),
            !lt(value, N::s_zero()) && value.s_is_zero() ==> r == Ok::<N, Error>(N::s_one()),
            !lt(value, N::s_zero()) && !value.s_is_zero() ==> cfact_some(N::s_one(), value, r),
//@ start
        let ghost mut k: nat = 0;
        proof { ax_f64(); }
        proof { assert(cfall(value, 0) == Some(value)); assert(cprod(N::s_one(), value, 0) == Some(N::s_one())); }
//@ loops 1
//@ loop 0
            invariant clone_ok::<N>(), N::obeys_eq_spec(), N::obeys_partial_cmp_spec(), !lt(value, N::s_zero()), !value.s_is_zero(),
                forall|i: nat| i < k ==> (#[trigger] cfall(value, i) matches Some(n) && ge(n, N::s_one())),
                cfall(value, k) == Some(next), cprod(N::s_one(), value, k) == Some(total),
//@ loop 0 start
            proof { if ge(next, N::s_one()) {
                assert(cprod(N::s_one(), value, k + 1) == total.s_mul(next));
                assert(cfall(value, k + 1) == next.s_sub(N::s_one()));
                assert forall|r: Result<N>| (total.s_mul(next) is None && err_is(r, ErrorKind::Overflow))
                    || (total.s_mul(next) matches Some(p) && ((gt(next, N::s_one()) && p.eq_spec(&total) && r == Ok::<N, Error>(p)) || (next.s_sub(N::s_one()) is None && err_is(r, ErrorKind::Overflow))))
                    implies #[trigger] cfact_some(N::s_one(), value, r) by { assert(cfact(N::s_one(), value, k, r)); }
                k = k + 1;
            } }
//@ loop 0 after
        proof { assert forall|r: Result<N>| tail_is(total, next, r) implies #[trigger] cfact_some(N::s_one(), value, r) by { assert(cfact(N::s_one(), value, k, r)); } }
//@ end
}
}
pub open spec fn s_ge<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }

// ---------------------------------------------------------------- ops/unchecked.rs
pub mod unchecked {
use super::*;
//@ repeat STRUCT T S | AddOperator Add add | SubOperator Sub sub | MulOperator Mul mul
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/unchecked.rs | impl BinaryFunction<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> pub fn call < N : @T@<N, Output = N> > (
//@ ret r
//@ spec
        requires N::obeys_@S@_spec(), left.@S@_req(right),
        ensures r == Ok::<N, Error>(left.@S@_spec(right)),
//@ end
}
//@ endrepeat
//@ repeat STRUCT T S | DivOperator Div div | ModOperator Rem rem
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/unchecked.rs | impl BinaryFunction<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> pub fn call < N : @T@<N, Output = N> + Zero > (
//@ ret r
//@ spec
        requires N::obeys_@S@_spec(), !right.s_is_zero() ==> left.@S@_req(right),
        ensures right.s_is_zero() ==> err_is(r, ErrorKind::DivisionByZero),
            !right.s_is_zero() ==> r == Ok::<N, Error>(left.@S@_spec(right)),
//@ end
}
//@ endrepeat
pub struct UnaryMinus;
impl UnaryMinus {
//@ extract prexel/src/ops/unchecked.rs | impl UnaryFunction<N> for UnaryMinus / fn call
//@ rewrite fn call ( ==> pub fn call < N : Neg<Output = N> > (
//@ ret r
//@ spec
        requires N::obeys_neg_spec(), value.neg_req(),
        ensures r == Ok::<N, Error>(value.neg_spec()),
//@ end
}
pub struct AbsFunction;
impl AbsFunction {
//@ extract prexel/src/ops/unchecked.rs | impl Function<N> for AbsFunction / fn call
//@ rewrite fn call ( ==> pub fn call < N : Zero + PartialOrd + Neg<Output = N> + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_partial_cmp_spec(), N::obeys_neg_spec(), forall|a: N| #[trigger] a.neg_req(),
        ensures args@.len() != 1 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() == 1 ==> r == Ok::<N, Error>(if s_ge(args@[0], N::s_zero()) { args@[0] } else { args@[0].neg_spec() }),
//@ end
}
pub struct Factorial;
impl Factorial {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for Factorial / fn call
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@ rewrite fn call ( ==> pub fn call < N : Clone + Zero + One + Sub<N, Output = N> + Mul<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive > (
//@ rewrite total_f64 *= ==> total_f64 = total_f64 *
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_eq_spec(), N::obeys_partial_cmp_spec(), N::obeys_mul_spec(), N::obeys_sub_spec(),
            forall|a: N, b: N| #[trigger] a.mul_req(b), forall|a: N, b: N| #[trigger] a.sub_req(b),
        ensures lt(value, N::s_zero()) ==> err_is(r, ErrorKind::NegativeValue),
            !lt(value, N::s_zero()) ==> if value.s_is_zero() || value.s_is_one() { r == Ok::<N, Error>(N::s_one()) }
                else if lt(value, N::s_one()) { match value.s_to_f64() {
                    Some(n) => ok_or(r, N::s_from_f64(s_gamma(n.add_spec(1f64))), ErrorKind::Overflow), None => err_is(r, ErrorKind::Overflow) } }
                else { ufact_some(value, value.sub_spec(N::s_one()), r) },
//@ start
        let ghost mut k: nat = 0;
        proof { ax_f64(); }
        let ghost v1 = value.sub_spec(N::s_one());
//@ loops 1
//@ loop 0
            invariant clone_ok::<N>(), N::obeys_eq_spec(), N::obeys_partial_cmp_spec(), N::obeys_mul_spec(), N::obeys_sub_spec(),
                forall|a: N, b: N| #[trigger] a.mul_req(b), forall|a: N, b: N| #[trigger] a.sub_req(b),
                !lt(value, N::s_zero()), !value.s_is_zero(), !value.s_is_one(), !lt(value, N::s_one()), v1 == value.sub_spec(N::s_one()),
                forall|i: nat| i < k ==> ge(#[trigger] ufall(v1, i), N::s_one()),
                ufall(v1, k) == next, uprod(value, v1, k) == total,
//@ loop 0 start
            proof { if ge(next, N::s_one()) {
                assert(uprod(value, v1, k + 1) == total.mul_spec(next));
                assert(ufall(v1, k + 1) == next.sub_spec(N::s_one()));
                assert forall|r: Result<N>| gt(next, N::s_one()) && total.mul_spec(next).eq_spec(&total) && r == Ok::<N, Error>(total.mul_spec(next))
                    implies #[trigger] ufact_some(value, v1, r) by { assert(ufact(value, v1, k, r)); }
                k = k + 1;
            } }
//@ loop 0 after
        proof { assert forall|r: Result<N>| tail_is(total, next, r) implies #[trigger] ufact_some(value, v1, r) by { assert(ufact(value, v1, k, r)); } }
//@ end
}
}

// ---------------------------------------------------------------- ops/mod.rs and complex/mod.rs
pub mod math {
use super::*;
pub struct UnaryPlus;
impl UnaryPlus {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for UnaryPlus / fn call
//@ rewrite fn call ( ==> pub fn call < N > (
//@ ret r
//@ spec
        ensures r == Ok::<N, Error>(value),
//@ end
}
pub struct PowOperator;
impl PowOperator {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl BinaryFunction<N> for PowOperator / fn call
//@ rewrite fn call ( ==> pub fn call < N : ToPrimitive + FromPrimitive > (
//@ ret r
//@ spec
        ensures match (left.s_to_f64(), right.s_to_f64()) {
            (Some(x), Some(e)) => ok_or(r, N::s_from_f64(s_powf(x, e)), ErrorKind::Overflow),
            _ => err_is(r, ErrorKind::Overflow) },
//@ end
}
}
pub trait Float: Sized + Zero + PartialOrd {}
pub struct Complex<T> { pub re: T, pub im: T }
impl<T: Float> Complex<T> {
    pub uninterp spec fn s_powc(self, e: Complex<T>) -> Complex<T>;
    #[verifier::external_body]
    pub fn powc(&self, exp: Complex<T>) -> (r: Complex<T>) ensures r == self.s_powc(exp) { unimplemented!() }
}
impl<T: Float> Zero for Complex<T> {
    uninterp spec fn s_zero() -> Complex<T>;
    uninterp spec fn s_is_zero(self) -> bool;
    #[verifier::external_body]
    fn zero() -> Complex<T> { unimplemented!() }
    #[verifier::external_body]
    fn is_zero(&self) -> bool { unimplemented!() }
}
impl<T: Float> One for Complex<T> {
    uninterp spec fn s_one() -> Complex<T>;
    uninterp spec fn s_is_one(self) -> bool;
    #[verifier::external_body]
    fn one() -> Complex<T> { unimplemented!() }
    #[verifier::external_body]
    fn is_one(&self) -> bool { unimplemented!() }
}
pub mod complex {
use super::*;
pub struct PowOperator;
impl PowOperator {
//@ extract prexel/src/complex/mod.rs | mod ops / impl BinaryFunction<Complex<T>> for PowOperator / fn call
//@ rewrite fn call ( ==> pub fn call < T : Float > (
//@ ret r
//@ spec
        requires T::obeys_partial_cmp_spec(),
        ensures r == Ok::<Complex<T>, Error>(if left.s_is_zero() && right.s_is_zero() { Complex::<T>::s_one() }
            else if left.s_is_zero() && gt(right.re, T::s_zero()) { Complex::<T>::s_zero() } else { left.s_powc(right) }),
//@ end
}
}

/// C26 over the contracts, for the checked float context: the float's own operation, and an error exactly for a zero divisor
fn theorem_c26_checked(x: f64, y: f64)
{
    let add = checked::AddOperator; let sub = checked::SubOperator; let mul = checked::MulOperator; let div = checked::DivOperator; let rem = checked::ModOperator; let neg = checked::UnaryMinus; let plus = math::UnaryPlus;
    let a = add.call(x, y); assert(a == Ok::<f64, Error>(x.f_add(y)));
    let a = sub.call(x, y); assert(a == Ok::<f64, Error>(x.f_sub(y)));
    let a = mul.call(x, y); assert(a == Ok::<f64, Error>(x.f_mul(y)));
    let a = div.call(x, y); assert(if y.s_is_zero() { err_is(a, ErrorKind::DivisionByZero) } else { a == Ok::<f64, Error>(x.f_div(y)) });
    let a = rem.call(x, y); assert(if y.s_is_zero() { err_is(a, ErrorKind::DivisionByZero) } else { a == Ok::<f64, Error>(x.f_rem(y)) });
    let a = neg.call(x); assert(a == Ok::<f64, Error>(x.f_neg()));
    let a = plus.call(x); assert(a == Ok::<f64, Error>(x));
}
fn main() {}
} // verus!
