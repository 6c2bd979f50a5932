// Verus unit: the factorial operators over number types that behave like floats, and the float gamma function (C21: they end).
// The number type is any type obeying the laws of `FNum`; f32 and f64 do (tools/flttest tries them on random and special values).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::pervasive::cloned;
use std::ops::{Add, Sub, Mul, Div, Rem, Neg};
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method ok_or_else
//@ rewrite method and_then
//@ rewrite method map_or

#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;

/// what a factorial needs to know of a float type: how far a value of at least one can still grow, and its order around one and two
pub trait FNum: Sized {
    /// the number of times a value of at least one can be doubled before it is infinite
    spec fn room(self) -> nat;
    spec fn ge1(self) -> bool;
    spec fn gt1(self) -> bool;
    spec fn ge2(self) -> bool;
}
pub trait Zero: FNum { fn zero() -> (r: Self); fn is_zero(&self) -> (r: bool); }
pub trait One: FNum { spec fn s_one() -> Self; fn one() -> (r: Self) ensures r == Self::s_one(); fn is_one(&self) -> (r: bool); }
pub trait FromPrimitive: FNum { fn from_f64(n: f64) -> (r: Option<Self>); }
pub trait ToPrimitive: FNum { fn to_f64(&self) -> (r: Option<f64>); }
pub trait CheckedMul: FNum { spec fn s_mul(self, o: Self) -> Option<Self>; fn checked_mul(&self, other: &Self) -> (r: Option<Self>) ensures r == self.s_mul(*other); }
pub trait CheckedSub: FNum { spec fn s_sub(self, o: Self) -> Option<Self>; fn checked_sub(&self, other: &Self) -> (r: Option<Self>) ensures r == self.s_sub(*other); }

/// comparison with one, for every value (a NaN is neither)
pub open spec fn float_order<N: FNum + One + PartialOrd>() -> bool {
    &&& N::obeys_eq_spec() && N::obeys_partial_cmp_spec()
    &&& forall|a: N| a.ge1() <==> (#[trigger] a.partial_cmp_spec(&N::s_one()) matches Some(o) && o != core::cmp::Ordering::Less)
    &&& forall|a: N| a.gt1() <==> #[trigger] a.partial_cmp_spec(&N::s_one()) == Some(core::cmp::Ordering::Greater)
    &&& forall|a: N| #[trigger] a.ge2() ==> a.gt1()
    &&& forall|a: N| #[trigger] a.gt1() ==> a.ge1()
    &&& N::s_one().ge1()
}
/// multiplying a >= 1 by b >= 1 gives p >= 1 with no more room than a; by b >= 2 it has less room, or a was infinite and p is equal to a
pub open spec fn law_mul<N: FNum + PartialEq>(a: N, b: N, p: N) -> bool {
    a.ge1() && b.ge1() ==> p.ge1() && p.room() <= a.room() && (b.ge2() ==> p.room() < a.room() || p.eq_spec(&a))
}
/// a - 1 >= 1 only for a >= 2
pub open spec fn law_sub<N: FNum>(a: N, d: N) -> bool { d.ge1() ==> a.ge1() && a.ge2() }
pub open spec fn float_checked<N: FNum + One + CheckedMul + CheckedSub + PartialOrd>() -> bool {
    &&& float_order::<N>()
    &&& forall|a: N, b: N| #[trigger] a.s_mul(b) matches Some(p) ==> law_mul(a, b, p)
    &&& forall|a: N| #[trigger] a.s_sub(N::s_one()) matches Some(d) ==> law_sub(a, d)
}
pub open spec fn float_ops<N: FNum + One + Mul<N, Output = N> + Sub<N, Output = N> + PartialOrd>() -> bool {
    &&& float_order::<N>()
    &&& N::obeys_mul_spec() && N::obeys_sub_spec()
    &&& forall|a: N, b: N| #[trigger] a.mul_req(b)
    &&& forall|a: N, b: N| #[trigger] a.sub_req(b)
    &&& forall|a: N, b: N| law_mul(a, b, #[trigger] a.mul_spec(b))
    &&& forall|a: N| law_sub(a, #[trigger] a.sub_spec(N::s_one()))
}
/// clone gives the same value
pub open spec fn clone_ok<N: Clone>() -> bool { forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> a == b }

/// 64-bit float arithmetic and comparison are functions of their operands, for all operands
pub axiom fn ax_f64()
    ensures <f64 as AddSpec<f64>>::obeys_add_spec(), <f64 as SubSpec<f64>>::obeys_sub_spec(), <f64 as MulSpec<f64>>::obeys_mul_spec(), <f64 as DivSpec<f64>>::obeys_div_spec(),
        <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec(),
        forall|a: f64, b: f64| #[trigger] a.add_req(b), forall|a: f64, b: f64| #[trigger] a.sub_req(b), forall|a: f64, b: f64| #[trigger] a.mul_req(b),
        forall|a: f64, b: f64| #[trigger] a.div_req(b);
pub open spec fn flt_lt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
#[verifier::external_body]
pub fn v_fneg(a: f64) -> f64 { -a }
#[verifier::external_body]
pub fn v_usize_f64(a: usize) -> f64 { a as f64 }
pub assume_specification[f64::sin](x: f64) -> (r: f64);
pub assume_specification[f64::sqrt](x: f64) -> (r: f64);
pub assume_specification[f64::exp](x: f64) -> (r: f64);
pub assume_specification[f64::powf](x: f64, y: f64) -> (r: f64);
#[verifier::external_body]
pub fn v_pi() -> f64 { std::f64::consts::PI }
/// a float below one half, taken from one, is not below one half
pub axiom fn axiom_reflect(x: f64) ensures flt_lt(x, 0.5) ==> !flt_lt(1.0f64.sub_spec(x), 0.5);

//@ extract prexel/src/utils/gamma.rs | fn gamma
//@ rewrite fn gamma ( mut x : f64 ) ==> fn gamma ( v_x : f64 )
//@ rewrite consts :: PI ==> v_pi()
//@ rewrite ( - t ) ==> ( v_fneg ( t ) )
//@ rewrite x -= ==> x = x -
//@ rewrite x += ==> x = x +
//@ rewrite factor += ==> factor = factor +
//@ rewrite for (n, coefficient) in P.iter().enumerate().skip(1) { $b } ==> for n in 1..P.len() { let coefficient = P[n]; $b }
//@ rewrite n.to_f64().unwrap() ==> v_usize_f64(n)
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ spec
        decreases (if flt_lt(v_x, 0.5) { 1int } else { 0 }),
//@ start
        let mut x = v_x;
        proof { ax_f64(); axiom_reflect(v_x); }
//@ loops 1
//@ end

pub mod checked {
use super::*;
pub struct Factorial;
impl Factorial {
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for Factorial / fn call
//@ rewrite fn call ( ==> pub fn call < N : Clone + Zero + One + CheckedSub + CheckedMul + PartialOrd + ToPrimitive + FromPrimitive > (
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
        requires float_checked::<N>(),
//@ start
        proof { ax_f64(); }
//@ loops 1
//@ loop 0
            invariant float_checked::<N>(), next.ge1() ==> total.ge1(),
            decreases total.room() + (if next.ge1() { 1int } else { 0 }),
//@ end
}
}
pub mod unchecked {
use super::*;
pub struct Factorial;
impl Factorial {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for Factorial / fn call
//@ rewrite fn call ( ==> pub fn call < N : Clone + Zero + One + Sub<N, Output = N> + Mul<N, Output = N> + PartialOrd + ToPrimitive + FromPrimitive > (
//@ rewrite total_f64 *= ==> total_f64 = total_f64 *
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
        requires float_ops::<N>(), clone_ok::<N>(),
//@ start
        proof { ax_f64(); }
//@ loops 1
//@ loop 0
            invariant float_ops::<N>(), clone_ok::<N>(), next.ge1() ==> total.ge1(),
            decreases total.room() + (if next.ge1() { 1int } else { 0 }),
//@ end
}
}

fn main() {}
} // verus!
