// ---------------------------------------------------------------- rust_decimal::Decimal, as its documentation states it
// A decimal is mantissa / 10^scale with |mantissa| < 2^96 and 0 <= scale <= 28. v() is its value in units of 10^-28.
#[verifier::inline]
pub open spec fn U() -> int { 10000000000000000000000000000 }
#[verifier::inline]
pub open spec fn M96() -> int { 79228162514264337593543950336 }
/// below this magnitude (7 * 10^28) a result is representable
#[verifier::inline]
pub open spec fn LIM() -> int { 7 * U() * U() }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
/// the decimal nearest to q, up to a generous rounding error
pub open spec fn close(x: int, q: int) -> bool { -11 - iabs(q) / 1000 <= x - q && x - q <= 11 + iabs(q) / 1000 }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Decimal { pub _p: () }
impl Decimal {
    pub uninterp spec fn m(self) -> int;
    pub uninterp spec fn scale(self) -> int;
    pub uninterp spec fn v(self) -> int;
    pub open spec fn is_int(self) -> bool { self.v() % U() == 0 }
    pub open spec fn qmul(self, o: Decimal) -> int { (self.v() * o.v()) / U() }
    pub open spec fn qdiv(self, o: Decimal) -> int { (self.v() * U()) / o.v() }
    pub uninterp spec fn s_add(self, o: Decimal) -> Decimal;
    pub uninterp spec fn s_sub(self, o: Decimal) -> Decimal;
    pub uninterp spec fn s_mul(self, o: Decimal) -> Decimal;
    pub uninterp spec fn s_div(self, o: Decimal) -> Decimal;
    pub uninterp spec fn s_cadd(self, o: Decimal) -> Option<Decimal>;
    pub uninterp spec fn s_csub(self, o: Decimal) -> Option<Decimal>;
    pub uninterp spec fn s_cmul(self, o: Decimal) -> Option<Decimal>;
    pub uninterp spec fn s_cdiv(self, o: Decimal) -> Option<Decimal>;
    pub uninterp spec fn s_crem(self, o: Decimal) -> Option<Decimal>;
    pub uninterp spec fn s_from_usize(n: usize) -> Option<Decimal>;
}
pub open spec fn add_ok(a: int, b: int, x: int) -> bool {
    &&& close(x, a + b)
    &&& (iabs(a + b) <= 7 * U() ==> x == a + b)
    &&& ((a + b) / U()) * U() <= x
    &&& x <= -(((-(a + b)) / U()) * U())
}
/// subtracting a non-negative b with no more decimal places than a, at most a, needs no rounding
pub open spec fn sub_exact(a: Decimal, b: Decimal) -> bool { 0 <= b.v() <= a.v() && b.scale() <= a.scale() }
/// the difference is in range
pub open spec fn sub_req(a: Decimal, b: Decimal) -> bool { iabs(a.v() - b.v()) <= LIM() || 0 <= b.v() <= a.v() }
pub open spec fn sub_ok(a: Decimal, b: Decimal, x: Decimal) -> bool {
    add_ok(a.v(), -b.v(), x.v()) && (sub_exact(a, b) ==> x.v() == a.v() - b.v() && (x.v() == 0 || x.scale() == a.scale()))
}
pub open spec fn mul_fits(a: Decimal, b: Decimal) -> bool { iabs(a.m() * b.m()) < M96() && a.scale() + b.scale() <= 28 }
pub open spec fn mul_ok(a: Decimal, b: Decimal, x: Decimal) -> bool {
    &&& close(x.v(), a.qmul(b))
    &&& (a.v() * b.v() >= 0 ==> x.v() >= 0) && (a.v() * b.v() <= 0 ==> x.v() <= 0)
    &&& (mul_fits(a, b) || a.m() * b.m() == 0 ==> x.m() == a.m() * b.m() && (x.m() == 0 || x.scale() == a.scale() + b.scale()))
}
pub open spec fn div_ok(a: Decimal, b: Decimal, x: Decimal) -> bool {
    &&& close(x.v(), a.qdiv(b))
    &&& (a.v() >= 0 && b.v() > 0 ==> x.v() >= 0) && (a.v() <= 0 && b.v() > 0 ==> x.v() <= 0)
    &&& (iabs(a.v()) <= iabs(b.v()) ==> iabs(x.v()) <= U())
}

//@ repeat TR FN SP REQ OK SYM | Add add AddSpecImpl iabs(self.v()+o.v())<=LIM() add_ok(self.v(),o.v(),r.v()) s_add | Sub sub SubSpecImpl sub_req(self,o) sub_ok(self,o,r) s_sub | Mul mul MulSpecImpl iabs(self.qmul(o))<=LIM() mul_ok(self,o,r) s_mul | Div div DivSpecImpl (o.v()!=0&&iabs(self.qdiv(o))<=LIM()) div_ok(self,o,r) s_div
impl core::ops::@TR@ for Decimal { type Output = Decimal;
    #[verifier::external_body]
    fn @FN@(self, o: Decimal) -> (r: Decimal) ensures @OK@, r == self.@SYM@(o) { unimplemented!() } }
impl @SP@<Decimal> for Decimal {
    open spec fn obeys_@FN@_spec() -> bool { false }
    open spec fn @FN@_req(self, o: Decimal) -> bool { @REQ@ }
    open spec fn @FN@_spec(self, o: Decimal) -> Decimal { arbitrary() }
}
//@ endrepeat
impl core::ops::Rem for Decimal { type Output = Decimal;
    #[verifier::external_body]
    fn rem(self, o: Decimal) -> (r: Decimal) ensures iabs(r.v()) <= iabs(o.v()) { unimplemented!() } }
/// `%` panics for a zero divisor; for divisors far below 1 it may also overflow
impl RemSpecImpl<Decimal> for Decimal {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: Decimal) -> bool { iabs(o.v()) >= U() }
    open spec fn rem_spec(self, o: Decimal) -> Decimal { arbitrary() }
}
impl core::ops::Neg for Decimal { type Output = Decimal;
    #[verifier::external_body]
    fn neg(self) -> (r: Decimal) ensures r.v() == -self.v(), r.m() == -self.m(), r.scale() == self.scale() { unimplemented!() } }
impl NegSpecImpl for Decimal {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Decimal { arbitrary() }
}
impl PartialEq for Decimal {
    #[verifier::external_body]
    fn eq(&self, o: &Decimal) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Decimal {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Decimal) -> bool { self.v() == o.v() }
}
impl PartialOrd for Decimal {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Decimal) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for Decimal {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Decimal) -> Option<core::cmp::Ordering> {
        Some(if self.v() < o.v() { core::cmp::Ordering::Less } else if self.v() == o.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
pub trait VInto<T>: Sized { spec fn s_into(self) -> T; fn v_into(self) -> (r: T) ensures r == self.s_into(); }
pub uninterp spec fn s_dec_u32(n: u32) -> Decimal;
impl VInto<Decimal> for u32 { open spec fn s_into(self) -> Decimal { s_dec_u32(self) }
    #[verifier::external_body]
    fn v_into(self) -> (r: Decimal) { unimplemented!() } }
impl VInto<i64> for u32 { open spec fn s_into(self) -> i64 { self as i64 }
    fn v_into(self) -> (r: i64) { self as i64 } }
/// a decimal literal
#[verifier::external_body]
pub fn v_lit(Ghost(m): Ghost<int>, Ghost(s): Ghost<int>, Ghost(v): Ghost<int>) -> (r: Decimal) ensures r.m() == m, r.scale() == s, r.v() == v { unimplemented!() }
pub fn v_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn v_fsqrt(x: f64) -> (r: f64) ensures s_nneg(r) { unimplemented!() }
/// not a negative number
pub uninterp spec fn s_nneg(x: f64) -> bool;

impl Decimal {
    #[verifier::external_body]
    pub fn zero() -> (r: Decimal) ensures r.m() == 0, r.scale() == 0, r.v() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Decimal) ensures r.m() == 1, r.scale() == 0, r.v() == U(), r == consts::k_ONE() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == U()) { unimplemented!() }
    /// the sign bit; a zero may carry either sign
    #[verifier::external_body]
    pub fn is_sign_negative(&self) -> (r: bool) ensures r ==> self.v() <= 0, !r ==> self.v() >= 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_sign_positive(&self) -> (r: bool) ensures r ==> self.v() >= 0, !r ==> self.v() <= 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self) -> (r: Decimal) ensures r.v() == iabs(self.v()) { unimplemented!() }
    /// the nearest integer
    #[verifier::external_body]
    pub fn round(&self) -> (r: Decimal) ensures r.is_int(), iabs(r.v() - self.v()) <= U() / 2 { unimplemented!() }
    #[verifier::external_body]
    pub fn round_dp(&self, dp: u32) -> (r: Decimal) { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(&self) -> (r: Decimal) ensures (r.v() == 0) == self.is_int() { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(&self) -> (r: Decimal) ensures r.is_int(), r.v() <= self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(&self) -> (r: Decimal) ensures r.is_int(), r.v() >= self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(&self) -> (r: Decimal) ensures r.is_int(), iabs(r.v()) <= iabs(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r == self.s_cadd(o), match r { Some(x) => add_ok(self.v(), o.v(), x.v()), None => iabs(self.v() + o.v()) > LIM() } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r == self.s_csub(o), match r { Some(x) => sub_ok(self, o, x), None => !sub_req(self, o) } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r == self.s_cmul(o), match r {
            Some(x) => mul_ok(self, o, x) && (self.scale() == 0 && o.scale() == 0 ==> iabs(self.m() * o.m()) < M96()),
            None => iabs(self.qmul(o)) > LIM() && !mul_fits(self, o) } { unimplemented!() }
    /// None for a zero divisor or an overflow
    #[verifier::external_body]
    pub fn checked_div(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r == self.s_cdiv(o), match r { Some(x) => o.v() != 0 && div_ok(self, o, x), None => o.v() == 0 || iabs(self.qdiv(o)) > LIM() } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_rem(self, o: Decimal) -> (r: Option<Decimal>)
        ensures r == self.s_crem(o), o.v() == 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u32(n: u32) -> (r: Option<Decimal>) ensures r == Some(s_dec_u32(n)) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_usize(n: usize) -> (r: Option<Decimal>) ensures r is Some, r == Self::s_from_usize(n), r->0.m() == n, r->0.scale() == 0, r->0.v() == n * U() { unimplemented!() }
    /// the integer part, where it is in range
    #[verifier::external_body]
    pub fn to_i64(&self) -> (r: Option<i64>) ensures self.is_int() ==> match r { Some(i) => self.v() == i * U(), None => !(i64::MIN * U() <= self.v() <= i64::MAX * U()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_f64(&self) -> (r: Option<f64>) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_f64(n: f64) -> (r: Option<Decimal>) ensures s_nneg(n) && r is Some ==> r->0.v() >= 0 { unimplemented!() }
}
pub assume_specification<T>[std::option::Option::<std::option::Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None::<T> });
pub mod dax { use super::*;
/// what the representation means
#[verifier::external_body]
pub broadcast proof fn ax_decimal(d: Decimal)
    ensures #![trigger d.v()] #![trigger d.m()]
        0 <= d.scale() <= 28, -M96() < d.m() < M96(), d.v() == d.m() * p10(28 - d.scale()), -M96() * U() < d.v() < M96() * U(),
        (d.v() == 0) == (d.m() == 0), d.scale() == 0 ==> d.v() == d.m() * U(), (d.v() > 0) == (d.m() > 0),
{ unimplemented!() }

#[verifier::external_body]
pub broadcast proof fn ax_dec_u32(n: u32) ensures (#[trigger] s_dec_u32(n)).m() == n, s_dec_u32(n).scale() == 0, s_dec_u32(n).v() == n * U() { unimplemented!() }
}
