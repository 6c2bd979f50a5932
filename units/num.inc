// ---------------------------------------------------------------- numbers
#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;

/// quotient truncated toward zero, and the remainder that goes with it
pub open spec fn tdiv(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }

proof fn lemma_tdiv_pos(a: int, b: int)
    requires a >= 0, b > 0,
    ensures 0 <= a / b <= a, a % b == a - b * (a / b), 0 <= a % b <= a, a % b < b, b == 1 ==> a / b == a, (b > 1 && a > 0) ==> a / b < a,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a, 1, b);
    if b > 1 && a > 0 { vstd::arithmetic::div_mod::lemma_div_decreases(a, b); }
    assert(0 <= a % b < b) by { vstd::arithmetic::div_mod::lemma_mod_bound(a, b); }
    assert(b * (a / b) >= 0) by(nonlinear_arith) requires b > 0, a / b >= 0;
}
proof fn lemma_euc_neg(a: int, b: int)
    requires b > 0,
    ensures a / (-b) == -(a / b), a % (-b) == a % b,
{
    assert(a / (-b) == -(a / b)) by(nonlinear_arith) requires b > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, -b);
    let q = a / b;
    assert((-b) * (-q) == b * q) by(nonlinear_arith);
}
/// the core library's description of / and % is truncation
pub proof fn lemma_trunc(a: int, b: int)
    requires b != 0,
    ensures vstd::arithmetic::div_mod::rust_div(a, b) == tdiv(a, b), vstd::arithmetic::div_mod::rust_rem(a, b) == trem(a, b),
        iabs(tdiv(a, b)) <= iabs(a), iabs(trem(a, b)) < iabs(b), iabs(trem(a, b)) <= iabs(a),
        tdiv(a, b) == -a ==> (b == -1 || a == 0), (a >= 0 ==> trem(a, b) >= 0), (a <= 0 ==> trem(a, b) <= 0), b == -1 ==> tdiv(a, b) == -a, (a >= 0 && b > 0) ==> trem(a, b) == a % b,
{
    let x = iabs(a); let y = iabs(b);
    lemma_tdiv_pos(x, y);
    lemma_euc_neg(x, y);
    let q = x / y;
    assert(b * (-q) == -(b * q) && (-b) * q == -(b * q)) by(nonlinear_arith);
}

// ---------------------------------------------------------------- what the number traits promise
/// `is_int`: the type holds exactly the integers `i` with `rep(i)`; `v` is the integer held
pub trait VNum: Sized {
    spec fn is_int() -> bool;
    spec fn v(self) -> int;
    spec fn rep(i: int) -> bool;
    proof fn v_zero() ensures Self::is_int() ==> Self::rep(0);
    proof fn v_rep(self) ensures Self::is_int() ==> Self::rep(self.v());
    proof fn v_inj(self, o: Self) requires Self::is_int(), self.v() == o.v() ensures self == o;
    /// the range is an interval
    proof fn v_interval(a: int, b: int, c: int) requires Self::is_int(), a <= b <= c, Self::rep(a), Self::rep(c) ensures Self::rep(b);
}
/// r is the exact result `i`, or None because `i` is out of range
pub open spec fn exact<N: VNum>(r: Option<N>, i: int) -> bool {
    match r { Some(x) => x.v() == i, None => !N::rep(i) }
}
pub trait CheckedAdd: VNum {
    spec fn s_add(self, o: Self) -> Option<Self>;
    proof fn law_add(self, o: Self) ensures Self::is_int() ==> exact(self.s_add(o), self.v() + o.v());
//@ extract prexel/src/num.rs | mod checked / trait CheckedAdd / fn checked_add
//@ ret r
//@ spec
        ensures r == self.s_add(*other), Self::is_int() ==> exact(r, self.v() + other.v())
//@ end
}
pub trait CheckedSub: VNum {
    spec fn s_sub(self, o: Self) -> Option<Self>;
//@ extract prexel/src/num.rs | mod checked / trait CheckedSub / fn checked_sub
//@ ret r
//@ spec
        ensures r == self.s_sub(*other), Self::is_int() ==> exact(r, self.v() - other.v())
//@ end
}
pub trait CheckedMul: VNum {
    spec fn s_mul(self, o: Self) -> Option<Self>;
    proof fn law_mul(self, o: Self) ensures Self::is_int() ==> exact(self.s_mul(o), self.v() * o.v());
//@ extract prexel/src/num.rs | mod checked / trait CheckedMul / fn checked_mul
//@ ret r
//@ spec
        ensures r == self.s_mul(*other), Self::is_int() ==> exact(r, self.v() * other.v())
//@ end
}
pub trait CheckedDiv: VNum {
    spec fn s_div(self, o: Self) -> Option<Self>;
    proof fn law_div(self, o: Self) ensures Self::is_int() ==> (if o.v() == 0 { self.s_div(o) is None } else { exact(self.s_div(o), tdiv(self.v(), o.v())) });
//@ extract prexel/src/num.rs | mod checked / trait CheckedDiv / fn checked_div
//@ ret r
//@ spec
        ensures r == self.s_div(*other),
            Self::is_int() ==> (if other.v() == 0 { r is None } else { exact(r, tdiv(self.v(), other.v())) })
//@ end
}
pub trait CheckedRem: VNum {
    spec fn s_rem(self, o: Self) -> Option<Self>;
//@ extract prexel/src/num.rs | mod checked / trait CheckedRem / fn checked_rem
//@ ret r
//@ spec
        ensures r == self.s_rem(*other),
            // the remainder of an overflowing division (MIN mod -1) counts as overflow
            Self::is_int() ==> match r {
                Some(x) => other.v() != 0 && x.v() == trem(self.v(), other.v()),
                None => other.v() == 0 || !Self::rep(tdiv(self.v(), other.v())) }
//@ end
}
pub trait CheckedNeg: VNum {
    spec fn s_neg(self) -> Option<Self>;
//@ extract prexel/src/num.rs | mod checked / trait CheckedNeg / fn checked_neg
//@ ret r
//@ spec
        ensures r == self.s_neg(), Self::is_int() ==> exact(r, -self.v())
//@ end
}

// ---------------------------------------------------------------- the primitive integers
//@ repeat T | i8 | i16 | i32 | i64 | i128 | isize
pub assume_specification[ @T@::checked_neg ](a: @T@) -> (r: Option<@T@>) ensures r == (if a == @T@::MIN { None } else { Some((-a) as @T@) });
//@ endrepeat
//@ repeat T | u8 | u16 | u32 | u64 | u128 | usize
pub assume_specification[ @T@::checked_neg ](a: @T@) -> (r: Option<@T@>) ensures r == (if a == 0 { Some(0 as @T@) } else { None });
//@ endrepeat
//@ repeat T | i8 | i16 | i32 | i64 | i128 | isize | u8 | u16 | u32 | u64 | u128 | usize
impl VNum for @T@ {
    open spec fn is_int() -> bool { true }
    open spec fn v(self) -> int { self as int }
    open spec fn rep(i: int) -> bool { @T@::MIN <= i <= @T@::MAX }
    proof fn v_zero() {}
    proof fn v_rep(self) {}
    proof fn v_inj(self, o: @T@) {}
    proof fn v_interval(a: int, b: int, c: int) {}
}
impl CheckedAdd for @T@ {
    open spec fn s_add(self, o: @T@) -> Option<@T@> { if @T@::rep(self + o) { Some((self + o) as @T@) } else { None } }
    proof fn law_add(self, o: @T@) {}
//@ extract expanded:prexel | mod num / mod checked / impl CheckedAdd for @T@ / fn checked_add
//@ end
}
impl CheckedSub for @T@ {
    open spec fn s_sub(self, o: @T@) -> Option<@T@> { if @T@::rep(self - o) { Some((self - o) as @T@) } else { None } }
//@ extract expanded:prexel | mod num / mod checked / impl CheckedSub for @T@ / fn checked_sub
//@ end
}
impl CheckedMul for @T@ {
    open spec fn s_mul(self, o: @T@) -> Option<@T@> { if @T@::rep(self * o) { Some((self * o) as @T@) } else { None } }
    proof fn law_mul(self, o: @T@) {}
//@ extract expanded:prexel | mod num / mod checked / impl CheckedMul for @T@ / fn checked_mul
//@ end
}
impl CheckedDiv for @T@ {
    open spec fn s_div(self, o: @T@) -> Option<@T@> { if o != 0 && @T@::rep(tdiv(self as int, o as int)) { Some(tdiv(self as int, o as int) as @T@) } else { None } }
    proof fn law_div(self, o: @T@) {}
//@ extract expanded:prexel | mod num / mod checked / impl CheckedDiv for @T@ / fn checked_div
//@ start
    proof { if *other != 0 { lemma_trunc(*self as int, *other as int); } }
//@ end
}
impl CheckedRem for @T@ {
    open spec fn s_rem(self, o: @T@) -> Option<@T@> { if o != 0 && @T@::rep(tdiv(self as int, o as int)) { Some(trem(self as int, o as int) as @T@) } else { None } }
//@ extract expanded:prexel | mod num / mod checked / impl CheckedRem for @T@ / fn checked_rem
//@ start
    proof { if *other != 0 { lemma_trunc(*self as int, *other as int); } }
//@ end
}
//@ endrepeat
//@ repeat T | i8 | i16 | i32 | i64 | i128 | isize
impl CheckedNeg for @T@ {
    open spec fn s_neg(self) -> Option<@T@> { if @T@::rep(-self) { Some((-self) as @T@) } else { None } }
//@ extract expanded:prexel | mod num / mod checked / impl CheckedNeg for @T@ / fn checked_neg
//@ end
}
//@ endrepeat


