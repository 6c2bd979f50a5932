// ---------------------------------------------------------------- decimal_ext.rs
broadcast use {dax::ax_decimal, dax::ax_dec_u32};
//@ rewrite . into ( ) ==> . v_into ( )
//@ rewrite . approx_eq ( ==> . approx_eq (
//@ rewrite let mut result = ( $$a ) . v_into ( ) ; ==> let mut result : Decimal = ( $$a ) . v_into ( ) ;
//@ rewrite ApproxEq :: approx_eq ==> Decimal :: approx_eq
//@ rewrite debug_assert ! ( $$a ) ==> v_assert ( $$a )
//@ rewrite factor *= $$a ; ==> factor = factor * ( $$a ) ;
//@ rewrite factor += $$a ; ==> factor = factor + ( $$a ) ;
//@ rewrite result += $$a ; ==> result = result + ( $$a ) ;
//@ rewrite n -= Decimal :: one ( ) ; ==> n = n - Decimal :: one ( ) ;
//@ rewrite x -= Decimal :: one ( ) ; ==> x = x - Decimal :: one ( ) ;
//@ rewrite const ITERATIONS : u32 = $$a ; ==> let ITERATIONS : u32 = $$a ;
//@ rewrite const MAX_DECIMAL_PLACES : u32 = $$a ; ==> let MAX_DECIMAL_PLACES : u32 = $$a ;
//@ rewrite . to_f64 ( ) ? . sqrt ( ) ==> . to_f64 ( ) ? . v_fsqrt ( )
//@ rewrite self . to_f64 ( ) ? . v_fsqrt ( ) ==> v_fsqrt ( self . to_f64 ( ) ? )
//@ rewrite for _ in ==> for v_i in

/// zero, or far enough from zero for a quotient by it to be representable
pub open spec fn apart(x: int) -> bool { x == 0 || iabs(x) >= 900000000000 }
proof fn lemma_mul_b(a: int, b: int, A: int, B: int)
    requires iabs(a) <= A, iabs(b) <= B,
    ensures iabs(a * b) <= A * B, iabs((a * b) / U()) <= (A * B) / U() + 1,
{
    assert(iabs(a * b) <= A * B) by (nonlinear_arith) requires iabs(a) <= A, iabs(b) <= B, iabs(a) == if a < 0 { -a } else { a }, iabs(b) == if b < 0 { -b } else { b }, iabs(a * b) == if a * b < 0 { -(a * b) } else { a * b };
}
/// |a * U / b| <= A * U / B + 1 for |a| <= A, |b| >= B > 0
proof fn lemma_div_b(a: int, b: int, A: int, B: int)
    requires iabs(a) <= A, iabs(b) >= B, B > 0,
    ensures iabs((a * U()) / b) <= (A * U()) / B + 1,
{
    let n = a * U(); let q = n / b; let Q = (A * U()) / B;
    assert(n == b * q + n % b && 0 <= n % b && n % b < iabs(b)) by (nonlinear_arith) requires q == n / b, b != 0, iabs(b) == if b < 0 { -b } else { b };
    assert(iabs(n) <= A * U());
    assert(A * U() < B * (Q + 1)) by (nonlinear_arith) requires Q == (A * U()) / B, B > 0;
    // |q| * |b| <= |n| + |b|
    assert(iabs(b * q) <= iabs(n) + iabs(b));
    assert(iabs(b * q) == iabs(b) * iabs(q)) by (nonlinear_arith) requires iabs(b) == if b < 0 { -b } else { b }, iabs(q) == if q < 0 { -q } else { q }, iabs(b * q) == if b * q < 0 { -(b * q) } else { b * q };
    assert(iabs(q) <= Q + 1) by (nonlinear_arith) requires iabs(b) * iabs(q) <= iabs(n) + iabs(b), iabs(n) < B * (Q + 1), iabs(b) >= B, B > 0, Q >= 0, iabs(q) >= 0, iabs(n) >= 0;
}

impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl ApproxEq for Decimal / fn approx_eq
//@ rewrite ( self - other ) ==> ( ( * self ) - ( * other ) )
//@ ret r
//@ spec
        requires iabs(self.v() - other.v()) <= LIM(),
        ensures iabs(self.v() - other.v()) <= 7 * U() ==> r == (iabs(self.v() - other.v()) < delta.v()),
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl Approx for Decimal / fn approx_by
//@ ret r
//@ spec
        ensures r == *self || r.is_int() && iabs(r.v() - self.v()) < delta.v(),
            0 <= delta.v() <= U() / 4 ==> r.v() == 0 || iabs(r.v()) >= delta.v(),
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl Approx for Decimal / fn approx
//@ ret r
//@ spec
        ensures apart(r.v()), iabs(r.v() - self.v()) <= 2000000000000,
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn is_integer
//@ ret r
//@ spec
        ensures r == self.is_int(),
//@ end
}
// ---- DecimalExt
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn to_radians
//@ bodyrewrite self * ( ==> ( * self ) * (
//@ ret r
//@ spec
        ensures iabs(r.v()) <= LIM(),
//@ start
        proof { assert forall|o: Decimal| iabs(o.v()) <= U() / 50 implies iabs(#[trigger] self.qmul(o)) <= 2 * U() * U() by { lemma_mul_b(self.v(), o.v(), M96() * U(), U() / 50); } }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn to_degrees
//@ bodyrewrite self * ( ==> ( * self ) * (
//@ ret r
//@ spec
        requires iabs(self.v()) <= U() * (U() / 10),
//@ start
        proof { assert forall|o: Decimal| iabs(o.v()) <= 60 * U() implies iabs(#[trigger] self.qmul(o)) <= LIM() by { lemma_mul_b(self.v(), o.v(), U() * (U() / 10), 60 * U()); } }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_to_degrees
//@ rewrite method map
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn inv
//@ ret r
//@ spec
        requires self.v() != 0,
        ensures r == consts::k_ONE().s_div(self), div_ok(consts::k_ONE(), self, r),
//@ start
        proof { lemma_div_b(U(), self.v(), U(), 1); }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_inv
//@ ret r
//@ spec
        ensures r == (if self.v() == 0 { None } else { Some(consts::k_ONE().s_div(self)) }), r is Some ==> div_ok(consts::k_ONE(), self, r->0),
//@ end
}

/// the mathematical power
pub open spec fn ipow(b: int, e: int) -> int decreases e { if e <= 0 { 1 } else { b * ipow(b, e - 1) } }
proof fn lemma_ipow_add(b: int, x: int, y: int)
    requires x >= 0, y >= 0,
    ensures ipow(b, x + y) == ipow(b, x) * ipow(b, y),
    decreases x,
{
    if x > 0 {
        lemma_ipow_add(b, x - 1, y);
        assert(ipow(b, x + y) == b * ipow(b, x - 1 + y));
        assert(b * (ipow(b, x - 1) * ipow(b, y)) == (b * ipow(b, x - 1)) * ipow(b, y)) by (nonlinear_arith);
    }
}
/// powers of an integer other than zero do not shrink
proof fn lemma_ipow_mono(b: int, x: int, y: int)
    requires b != 0, 0 <= x <= y,
    ensures iabs(ipow(b, x)) <= iabs(ipow(b, y)), iabs(ipow(b, x)) >= 1,
    decreases y,
{
    if x < y {
        lemma_ipow_mono(b, x, y - 1);
        let p = ipow(b, y - 1);
        assert(iabs(b * p) >= iabs(p)) by (nonlinear_arith) requires b != 0, iabs(p) == if p < 0 { -p } else { p }, iabs(b * p) == if b * p < 0 { -(b * p) } else { b * p };
    } else if x > 0 {
        lemma_ipow_mono(b, x - 1, x - 1);
        let p = ipow(b, x - 1);
        assert(iabs(b * p) >= 1) by (nonlinear_arith) requires b != 0, iabs(p) >= 1, iabs(p) == if p < 0 { -p } else { p }, iabs(b * p) == if b * p < 0 { -(b * p) } else { b * p };
    }
}
proof fn lemma_ipow_zero(x: int) requires x > 0 ensures ipow(0, x) == 0 { }
proof fn lemma_ipow_one(b: int) ensures ipow(b, 0) == 1, ipow(b, 1) == b { reveal_with_fuel(ipow, 3); }
/// the product is representable exactly: b^e with a mantissa below 2^96 and at most 28 decimal places
pub open spec fn pow_fits(b: Decimal, e: int) -> bool { b.m() == 0 || iabs(ipow(b.m(), e)) < M96() && b.scale() * e <= 28 }
/// raising b to e >= 0: exact when representable; an error when an integer base overflows; 1 for exponent 0
pub open spec fn powi_ok(b: Decimal, e: int, r: Option<Decimal>) -> bool {
    &&& (pow_fits(b, e) ==> r is Some && is_pow(b, e, r->0))
    &&& (b.scale() == 0 && !pow_fits(b, e) ==> r is None)
    &&& (e == 0 ==> r is Some && r->0.v() == U())
    &&& (e == 1 ==> r == Some(b))
}
pub open spec fn is_pow(b: Decimal, e: int, x: Decimal) -> bool { x.m() == ipow(b.m(), e) && (x.m() == 0 || x.scale() == b.scale() * e) }
/// the step of the multiplication: x^p * x^q is representable and exact when x^(p+q+k) is
proof fn lemma_step(x: Decimal, a: Decimal, p: int, b: Decimal, q: int, e: int)
    requires p >= 0, q >= 1, p + q <= e, is_pow(x, p, a), is_pow(x, q, b),
    ensures ipow(x.m(), p + q) == a.m() * b.m(),
        pow_fits(x, e) ==> (mul_fits(a, b) || a.m() * b.m() == 0),
        a.m() != 0 && b.m() != 0 ==> a.scale() + b.scale() == x.scale() * (p + q),
        a.m() * b.m() == 0 ==> a.qmul(b) == 0,
{
    if a.m() * b.m() == 0 {
        assert(a.m() == 0 || b.m() == 0) by (nonlinear_arith) requires a.m() * b.m() == 0;
        assert(a.v() * b.v() == 0) by (nonlinear_arith) requires a.v() == 0 || b.v() == 0;
    }
    lemma_ipow_add(x.m(), p, q);
    assert(x.scale() * p + x.scale() * q == x.scale() * (p + q)) by (nonlinear_arith);
    if x.m() == 0 { lemma_ipow_zero(q); assert(a.m() * b.m() == 0) by (nonlinear_arith) requires b.m() == 0; }
    else {
        lemma_ipow_mono(x.m(), p, p + q); lemma_ipow_mono(x.m(), q, p + q); lemma_ipow_mono(x.m(), p + q, e);
        assert(x.scale() * (p + q) <= x.scale() * e) by (nonlinear_arith) requires x.scale() >= 0, p + q <= e;
        assert(a.m() * b.m() != 0) by (nonlinear_arith) requires a.m() != 0, b.m() != 0;
    }
}
proof fn lemma_over2(x: Decimal, a: Decimal, p: int, b: Decimal, q: int)
    requires p >= 0, q >= 1, is_pow(x, p, a), is_pow(x, q, b),
    ensures x.scale() == 0 ==> (a.m() != 0 ==> a.scale() == 0) && (b.m() != 0 ==> b.scale() == 0),
{
    assert(0 * p == 0 && 0 * q == 0);
}

pub assume_specification[i64::checked_neg](x: i64) -> (r: Option<i64>) ensures r == (if x == i64::MIN { None } else { Some((-x) as i64) });
proof fn lemma_bits(x: i64)
    requires x >= 0,
    ensures (x & 1) == x % 2, (x >> 1) == x / 2,
{
    assert((x & 1) == x % 2) by (bit_vector) requires x >= 0;
    assert((x >> 1) == x / 2) by (bit_vector) requires x >= 0;
}
proof fn lemma_sign(a: int, b: int)
    ensures (a >= 0 && b >= 0) || (a <= 0 && b <= 0) ==> a * b >= 0, (a >= 0 && b <= 0) || (a <= 0 && b >= 0) ==> a * b <= 0,
{
    assert((a >= 0 && b >= 0) || (a <= 0 && b <= 0) ==> a * b >= 0) by (nonlinear_arith);
    assert((a >= 0 && b <= 0) || (a <= 0 && b >= 0) ==> a * b <= 0) by (nonlinear_arith);
}
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_powi
//@ rewrite fn checked_powi ( self , mut exponent : i64 ) ==> fn checked_powi ( self , v_e : i64 )
//@ ret r
//@ spec
        ensures v_e >= 0 ==> powi_ok(self, v_e as int, r),
            v_e < 0 && self.v() == 0 ==> r is None,
            v_e < 0 && self.v() != 0 && v_e > i64::MIN ==> powi_ok(consts::k_ONE().s_div(self), -v_e, r),
            v_e == i64::MIN ==> r is None,
            r is Some && v_e >= 0 && (self.v() >= 0 || v_e % 2 == 0) ==> r->0.v() >= 0,
            r is Some && v_e >= 0 && self.v() <= 0 && v_e % 2 == 1 ==> r->0.v() <= 0,
        decreases (if v_e < 0 { 1int } else { 0int }),
//@ start
        let ghost e = v_e as int;
        proof { lemma_ipow_one(self.m()); }
        let mut exponent = v_e;
//@ before let mut result
        let ghost mut p: int = 0;
        let ghost mut q: int = 1;
//@ loops 1
//@ loop 0
            invariant e == v_e, e >= 2, exponent >= 0, p >= 0, q >= 1, p + q * exponent == e,
                pow_fits(self, e) || self.scale() == 0 ==> is_pow(self, p, result) && (exponent > 0 ==> is_pow(self, q, base)),
                result.scale() == 0 && result.m() == 1 || p > 0,
                q == 1 || q % 2 == 0, q == 1 ==> base == self && p == 0, exponent > 0 && (q > 1 || self.v() >= 0) ==> base.v() >= 0,
                self.v() >= 0 || p % 2 == 0 ==> result.v() >= 0, self.v() <= 0 && p % 2 == 1 ==> result.v() <= 0,
            decreases exponent,
//@ loop 0 start
            let ghost r0 = result; let ghost x0 = exponent as int;
            proof {
                lemma_bits(exponent); lemma_sign(result.v(), base.v());
                assert(q * x0 >= q) by (nonlinear_arith) requires x0 >= 1, q >= 1;
                if pow_fits(self, e) || self.scale() == 0 { lemma_step(self, result, p, base, q, e); lemma_over2(self, result, p, base, q); }
            }
//@ before exponent >>= 1
            proof { if x0 % 2 != 0 { assert(q * (x0 - 1) == q * x0 - q) by (nonlinear_arith); p = p + q; } lemma_bits(exponent); }
//@ before base = base
            proof {
                lemma_sign(base.v(), base.v());
                assert(q * (2 * exponent) >= 2 * q) by (nonlinear_arith) requires exponent >= 1, q >= 1;
                if pow_fits(self, e) || self.scale() == 0 { lemma_step(self, base, q, base, q, e); lemma_over2(self, base, q, base, q); }
            }
//@ loop 0 end
            proof {
                assert(q * (2 * exponent) == (2 * q) * exponent) by (nonlinear_arith);
                q = 2 * q;
            }
//@ before Some ( result )
        proof { assert(q * 0 == 0 && 0 * e == 0) by (nonlinear_arith); assert(p == e); }
//@ end
}

proof fn lemma_qle(c: Decimal, o: Decimal)
    requires c.v() >= 0, 0 <= o.v() <= U(),
    ensures 0 <= c.qmul(o) <= c.v(),
{
    let p = c.v() * o.v();
    assert(0 <= p <= c.v() * U()) by (nonlinear_arith) requires p == c.v() * o.v(), c.v() >= 0, 0 <= o.v() <= U();
}
proof fn lemma_minus_one(n: int)
    requires n >= 0,
    ensures ipow(-1, n) == if n % 2 == 0 { 1int } else { -1 },
    decreases n,
{ if n > 0 { lemma_minus_one(n - 1); } }
/// upper bound of the quotient after n divisions by ten
pub open spec fn lnb(n: int) -> int decreases n { if n <= 0 { M96() * U() } else { lnb(n - 1) / 2 } }
proof fn lemma_lnb(n: int)
    requires n >= 0,
    ensures n > 200 ==> lnb(n) <= U(),
    decreases n,
{
    if n > 201 { lemma_lnb(n - 1); }
    else if n == 201 { assert(lnb(201) <= U()) by (compute); }
}
/// bound of the n-th approximation of a square root, of a number whose quotients are at most k - 2
pub open spec fn sqb(n: int, k: int) -> int decreases n { if n <= 0 { M96() * U() } else { ((sqb(n - 1, k) + k * U()) * 51) / 100 } }
proof fn lemma_sqb(n: int, k: int) requires n >= 0, k == 17 || k == 5 ensures sqb(n, k) >= k * U() && (n == 99 ==> sqb(n, 17) <= 20 * U() && sqb(n, 5) <= 7 * U()) decreases n
{ if n > 0 { lemma_sqb(n - 1, k); } if n == 99 { assert(sqb(99, 17) <= 20 * U()) by (compute); assert(sqb(99, 5) <= 7 * U()) by (compute); } }
/// one step of the babylonian method for v, from a: q = v / a, rounded to xr, xr + a to s, and half of it to r
proof fn lemma_sqrt_step(v: int, a: int, q: int, xr: int, s: int, h: int, r: int)
    requires 0 <= v <= 7 * U(), a > 0, q == (v * U()) / a, close(xr, q), xr >= 0, close(s, xr + a), h == ((U() / 2) * s) / U(), close(r, h), r >= 0,
    ensures v <= 15 * r, v <= U() ==> v <= 3 * r,
        v <= 15 * a ==> 100 * r <= (a + 17 * U()) * 51 - 100,
        v <= 3 * a ==> 100 * r <= (a + 5 * U()) * 51 - 100,
{
    assert(h == s / 2) by { assert(((U() / 2) * s) / U() == s / 2) by (nonlinear_arith) requires true; }
    if v <= 15 * a {
        assert(q <= 15 * U()) by (nonlinear_arith) requires v <= 15 * a, q == (v * U()) / a, a > 0;
    }
    if v <= 3 * a {
        assert(q <= 3 * U()) by (nonlinear_arith) requires v <= 3 * a, q == (v * U()) / a, a > 0;
    }
    if a < U() {
        assert(q >= v) by (nonlinear_arith) requires q == (v * U()) / a, 0 < a < U(), v >= 0;
        if v >= 1 && a < 10000 {
            assert(q >= U() / 10000) by (nonlinear_arith) requires q == (v * U()) / a, 0 < a < 10000, v >= 1;
        }
    }
    assert(q >= 0) by (nonlinear_arith) requires q == (v * U()) / a, a > 0, v >= 0;
}
proof fn lemma_half_pos(s: Decimal)
    requires s.v() >= 0,
    ensures forall|x: Decimal| #[trigger] mul_ok(consts::k_HALF(), s, x) ==> x.v() >= 0,
{ consts::ax_HALF(); let h = consts::k_HALF().v(); assert(h * s.v() >= 0) by (nonlinear_arith) requires s.v() >= 0, h >= 0; }
proof fn lemma_sqrt_dec(v: Decimal, a: Decimal, xr: Decimal, s: Decimal, r: Decimal)
    requires 0 <= v.v() <= 7 * U(), a.v() > 0, close(xr.v(), v.qdiv(a)), xr.v() >= 0, close(s.v(), xr.v() + a.v()), close(r.v(), consts::k_HALF().qmul(s)), r.v() >= 0,
    ensures v.v() <= 15 * r.v(), v.v() <= U() ==> v.v() <= 3 * r.v(),
        v.v() <= 15 * a.v() ==> 100 * r.v() <= (a.v() + 17 * U()) * 51 - 100,
        v.v() <= 3 * a.v() ==> 100 * r.v() <= (a.v() + 5 * U()) * 51 - 100,
{
    consts::ax_HALF();
    lemma_sqrt_step(v.v(), a.v(), (v.v() * U()) / a.v(), xr.v(), s.v(), ((U() / 2) * s.v()) / U(), r.v());
}
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_sqrt
//@ ret r
//@ spec
        ensures r is Some ==> self.v() >= 0,
            r is Some && self.v() <= 7 * U() ==> 0 <= r->0.v() <= 20 * U(),
            r is Some && self.v() <= U() ==> 0 <= r->0.v() <= 7 * U(),
//@ loops 1
//@ loop 0
            invariant self.v() >= 0, x.v() >= 0, result.v() >= 0, iterations <= consts::TAYLOR_SERIES_ITERATIONS,
                self.v() <= 7 * U() && x.v() > 7 * U() ==> result.v() < x.v(),
                self.v() <= 7 * U() && iterations >= 1 ==> self.v() <= 15 * result.v() && result.v() <= sqb(iterations as int - 1, 17),
                self.v() <= U() && iterations >= 1 ==> self.v() <= 3 * result.v() && result.v() <= sqb(iterations as int - 1, 5),
            ensures x.v() == result.v() || iterations >= consts::TAYLOR_SERIES_ITERATIONS,
            decreases consts::TAYLOR_SERIES_ITERATIONS - iterations,
//@ loop 0 start
            proof {
                consts::ax_HALF(); lemma_sqb(iterations as int, 17); lemma_sqb(iterations as int, 5);
                if result.v() > 7 * U() && self.v() <= 7 * U() { lemma_div_b(self.v(), result.v(), 7 * U(), 7 * U()); }
            }
            let ghost v_a = result;
//@ before let xr1
            proof { assert(v_a.v() > 0); assert(xr.v() >= 0); }
//@ loop 0 end
            proof {
                lemma_half_pos(xr1); assert(mul_ok(consts::k_HALF(), xr1, result));
                if self.v() <= 7 * U() { assert(v_a.v() > 0); lemma_sqrt_dec(self, v_a, xr, xr1, result); }
            }
//@ loop 0 after
        proof { lemma_sqb(99, 17); lemma_sqb(99, 5); }
//@ end
}
/// largest magnitude whose square is representable (in units of 1)
#[verifier::inline]
pub open spec fn XMAX() -> int { 300000000000000 }
proof fn lemma_square(dx: Decimal)
    ensures iabs(dx.qmul(dx)) <= M96() * U() * 101 / 100 ==> iabs(dx.v()) <= XMAX() * U(),
        0 <= dx.v() <= 35 * U() / 10 ==> 0 <= dx.qmul(dx) <= 1225 * U() / 100,
{
    let x = dx.v();
    if iabs(x) > XMAX() * U() {
        let a = iabs(x);
        assert(a * a >= (XMAX() * U()) * (XMAX() * U())) by (nonlinear_arith) requires a > XMAX() * U();
        assert(a * a == x * x) by (nonlinear_arith) requires a == x || a == -x;
    }
    if 0 <= x <= 35 * U() / 10 {
        let c = 35 * U() / 10;
        assert(0 <= x * x <= c * c) by (nonlinear_arith) requires 0 <= x <= c;
        assert((35 * U() / 10) * (35 * U() / 10) == (1225 * U() / 100) * U()) by (compute); assert(c * c == (1225 * U() / 100) * U()) by (nonlinear_arith) requires c == 35 * U() / 10, (35 * U() / 10) * (35 * U() / 10) == (1225 * U() / 100) * U();
        assert(0 <= (x * x) / U() <= 1225 * U() / 100) by (nonlinear_arith) requires 0 <= x * x <= (1225 * U() / 100) * U();
    }
}
proof fn lemma_twice(x: Decimal)
    ensures consts::k_TWO().qmul(x) == 2 * x.v(),
{
    consts::ax_TWO();
    assert(((2 * U()) * x.v()) / U() == 2 * x.v()) by { assert((2 * U()) * x.v() == U() * (2 * x.v())) by (nonlinear_arith); }
}
/// a * U / b <= a * U / B for b >= B
proof fn lemma_div_up(a: int, b: int, B: int)
    requires a >= 0, b >= B, B > 0,
    ensures 0 <= (a * U()) / b <= (a * U()) / B,
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a * U(), B, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a * U(), b);
}
proof fn lemma_qdiv_up(a: Decimal, b: Decimal, B: int)
    requires a.v() >= 0, b.v() >= B, B > 0,
    ensures 0 <= a.qdiv(b) <= (a.v() * U()) / B,
{ lemma_div_up(a.v(), b.v(), B); }
/// a * U / b >= A * U / B for a >= A >= 0 and 0 < b <= B
proof fn lemma_div_low(a: int, b: int, A: int, B: int)
    requires a >= A, A >= 0, 0 < b <= B,
    ensures (a * U()) / b >= (A * U()) / B,
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(A * U(), b, B);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(A * U(), a * U(), b);
}
/// the denominator of the continued fraction of e^x on [k/16, (k+1)/16]: a lower bound
pub open spec fn exp_lo(k: int) -> int { let lo = k * (U() / 16); (lo * lo) / U() * 999 / 1000 - 12 }
pub open spec fn exp_hi(k: int) -> int { let hi = (k + 1) * (U() / 16); (hi * hi) / U() * 1001 / 1000 + 12 }
pub open spec fn exp_low(k: int) -> int { 2 * U() - (k + 1) * (U() / 16) + ((if exp_lo(k) < 0 { 0 } else { exp_lo(k) }) * U()) / (606 * U() / 100 + exp_hi(k) / 9 + 1) * 998 / 1000 - 12 }
pub open spec fn exp_all(n: int) -> bool decreases n { n <= 0 || (exp_low(n - 1) >= U() / 50 && exp_all(n - 1)) }
proof fn lemma_exp_all(n: int, k: int) requires exp_all(n), 0 <= k < n ensures exp_low(k) >= U() / 50 decreases n { if k < n - 1 { lemma_exp_all(n - 1, k); } }
/// 2 - x + a0 / r stays away from zero for 0 <= x <= 3.5
proof fn lemma_exp_den(dx: Decimal, da: Decimal, dr: Decimal, dd: Decimal)
    requires 0 <= dx.v() <= 35 * U() / 10, close(da.v(), dx.qmul(dx)), 6 * U() <= dr.v() <= 6 * U() + da.v() / 9 + 6 * U() / 100, da.v() >= 0, close(dd.v(), da.qdiv(dr)), dd.v() >= 0,
    ensures 2 * U() - dx.v() + dd.v() >= U() / 50,
{
    let x = dx.v(); let a0 = da.v(); let r = dr.v(); let d = dd.v();
    let k = x / (U() / 16);
    let lo = k * (U() / 16); let hi = (k + 1) * (U() / 16);
    assert(lo <= x < hi && 0 <= k <= 56);
    assert(lo * lo <= x * x <= hi * hi) by (nonlinear_arith) requires 0 <= lo <= x, x <= hi;
    let L = if exp_lo(k) < 0 { 0 } else { exp_lo(k) };
    assert(a0 >= L && a0 <= exp_hi(k));
    lemma_div_low(a0, r, L, 606 * U() / 100 + exp_hi(k) / 9 + 1);
    assert(exp_all(57)) by (compute);
    lemma_exp_all(57, k);
}
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_cbrt
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_log
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_ln
//@ ret r
//@ spec
        ensures self.v() <= 0 ==> r is None,
            r is Some && self.v() <= U() ==> r->0.v() <= 2000000000000,
            r is Some && self.v() <= 65 * U() / 10 ==> r->0.v() <= 231 * U() / 100,
        decreases (if self.v() > U() { 1int } else { 0int }),
//@ loops 2
//@ loop 0
            invariant a.v() <= lnb(n as int), n <= 202, self.v() <= 65 * U() / 10 ==> (n == 0 && a == self || n == 1 && a.v() <= U()),
            ensures a.v() <= U(),
            decreases (if a.v() > 0 { a.v() } else { 0 }),
//@ loop 0 start
            proof { lemma_lnb(n as int); consts::ax_TEN(); if self.v() <= 65 * U() / 10 { lemma_div_b(a.v(), 10 * U(), 65 * U() / 10, 10 * U()); } }
//@ before let b =
            proof { consts::ax_LN_10(); assert forall|o: Decimal| 0 <= o.v() <= U() implies #[trigger] consts::k_LN_10().qmul(o) <= consts::k_LN_10().v() by { lemma_qle(consts::k_LN_10(), o); } }
//@ loop 1
            invariant 0 < self.v() <= U(), result.v() <= 0,
//@ loop 1 start
            proof { consts::ax_ONE_MINUS(); lemma_minus_one(n + 1); assert(0 * (n + 1) == 0); }
//@ before let y =
            proof { lemma_sign(div.v(), sign.v()); }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_exp
//@ ret r
//@ spec
        ensures r is Some && self.v() <= 35 * U() / 10 ==> iabs(r->0.v()) <= 2000 * U() + 2 * iabs(self.v()),
            r is Some ==> iabs(self.v()) <= XMAX() * U(),
//@ start
        hide(Decimal::qmul); hide(Decimal::qdiv);
//@ before let mut b0
        proof { lemma_sign(self.v(), self.v()); lemma_square(self); }
//@ loops 1
//@ loop 0
            invariant b0 >= 2, b0 % 4 == 2, b0 <= 1000, a0.v() >= 0, close(a0.v(), self.qmul(self)), result.v() >= (b0 + 4) * U(),
                0 <= self.v() <= 35 * U() / 10 ==> a0.v() <= 13 * U(),
                0 <= self.v() <= 35 * U() / 10 ==> result.v() <= (b0 + 4) * U() + a0.v() / 9 + (b0 + 4) * U() / 100,
            decreases b0,
//@ loop 0 start
            proof { if self.v() >= 0 && self.v() <= 35 * U() / 10 { lemma_qdiv_up(a0, result, 10 * U()); } }
//@ before result = sum
            proof { if 0 <= self.v() <= 35 * U() / 10 { lemma_exp_den(self, a0, result, div); } }
//@ before let xx
        proof {
            assert(self.v() <= 35 * U() / 10 ==> result.v() >= U() / 100);
            assert(self.v() <= 0 ==> result.v() >= 2 * U());
            assert forall|c: Decimal| self.v() <= 35 * U() / 10 && iabs(c.v()) <= 8 * U() implies iabs(#[trigger] c.qdiv(result)) <= 801 * U() by { lemma_qdiv(c, result, 8 * U(), U() / 100); }
            assert forall|c: Decimal| self.v() <= 0 implies iabs(#[trigger] c.qdiv(result)) <= iabs(c.v()) / 2 + 1 by { lemma_qdiv(c, result, iabs(c.v()), 2 * U()); }
            lemma_twice(self);
        }
//@ end
}

proof fn lemma_pow_arg(l: Decimal, e: Decimal)
    requires U() / 2 <= e.v() <= 3 * U() / 2, l.v() <= 231 * U() / 100,
    ensures l.qmul(e) <= 3465 * U() / 1000, l.v() <= 0 ==> l.v() * e.v() <= 0,
{
    let a = l.v(); let b = e.v();
    if a <= 0 { lemma_sign(a, b); }
    else {
        assert(a * b <= (231 * U() / 100) * (3 * U() / 2)) by (nonlinear_arith) requires 0 < a <= 231 * U() / 100, 0 <= b <= 3 * U() / 2;
        assert((231 * U() / 100) * (3 * U() / 2) <= (3465 * U() / 1000) * U()) by (compute);
        assert((a * b) / U() <= 3465 * U() / 1000) by (nonlinear_arith) requires a * b <= (3465 * U() / 1000) * U();
    }
}
/// raising `b` to the decimal exponent `x`
pub open spec fn powd_ok(b: Decimal, x: Decimal, r: Option<Decimal>) -> bool {
    let e = x.v() / U();
    if x.is_int() {
        if e < i64::MIN || e > i64::MAX { r is None }
        else { powi_int(b, e, r) }
    } else if b.v() == 0 { if x.v() < 0 { r is None } else { r is Some && r->0.v() == 0 } }
    else if b.v() < 0 { r is None }
    else { b.v() == U() ==> r == Some(b) }
}
/// raising `b` to the integer `e` of an i64
pub open spec fn powi_int(b: Decimal, e: int, r: Option<Decimal>) -> bool {
    &&& e >= 0 ==> powi_ok(b, e, r)
    &&& e < 0 && b.v() == 0 ==> r is None
    &&& e < 0 && b.v() != 0 && e > i64::MIN ==> powi_ok(consts::k_ONE().s_div(b), -e, r)
    &&& e == i64::MIN ==> r is None
}
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_powd
//@ ret r
//@ spec
        ensures powd_ok(self, exponent, r),
            // small base and exponent: the result is within reach of a product (used by gamma)
            r is Some && 5 * U() <= self.v() <= 65 * U() / 10 && U() / 2 <= exponent.v() <= 3 * U() / 2 ==> iabs(r->0.v()) <= 1000000000000000 * U(),
//@ start
        proof { consts::ax_E(); }
        proof { assert forall|l: Decimal| U() / 2 <= exponent.v() <= 3 * U() / 2 && l.v() <= 231 * U() / 100 implies #[trigger] l.qmul(exponent) <= 3465 * U() / 1000 && (l.v() <= 0 ==> l.v() * exponent.v() <= 0) by { lemma_pow_arg(l, exponent); } }
        proof { assert(exponent.is_int() ==> exponent.v() == (exponent.v() / U()) * U()); }
//@ end
}

/// Taylor series of sine: a lower bound of the n-th divisor, an upper bound of the n-th quotient and of the n-th term
pub open spec fn sk(n: int) -> int { if n == 1 { 6 } else if n == 2 { 20 } else if n == 3 { 42 } else { 72 } }
pub open spec fn srb(n: int) -> int { if n == 1 { 7 * U() } else if n == 2 { 21 * U() / 10 } else if n == 3 { U() } else { 6 * U() / 10 } }
pub open spec fn sfb(n: int) -> int { if n == 1 { 63 * U() / 10 } else if n == 2 { 45 * U() } else if n == 3 { 95 * U() } else { 96 * U() } }
proof fn lemma_qdiv(a: Decimal, o: Decimal, A: int, B: int) requires iabs(a.v()) <= A, iabs(o.v()) >= B, B > 0 ensures iabs(a.qdiv(o)) <= (A * U()) / B + 1 { lemma_div_b(a.v(), o.v(), A, B); }
proof fn lemma_qmul(a: Decimal, o: Decimal, A: int, B: int) requires iabs(a.v()) <= A, iabs(o.v()) <= B ensures iabs(a.qmul(o)) <= (A * B) / U() + 1 { lemma_mul_b(a.v(), o.v(), A, B); }
pub open spec fn sq(n: int) -> int { if n == 1 { 67 * U() / 10 } else if n == 2 { 201 * U() / 100 } else if n == 3 { 96 * U() / 100 } else { 56 * U() / 100 } }
pub open spec fn sf(n: int) -> int { if n == 1 { 442 * U() / 10 } else if n == 2 { 946 * U() / 10 } else if n == 3 { 951 * U() / 10 } else { 58 * U() } }
proof fn lemma_sin_step(xx: Decimal, factor: Decimal, n: int)
    requires iabs(xx.v()) <= 40 * U(), 1 <= n < 100, iabs(factor.v()) <= sfb(n),
    ensures 0 <= (2 * n + 1) * (2 * n) <= 100000, (2 * n + 1) * (2 * n) >= sk(n),
        forall|a: Decimal, o: Decimal| iabs(a.v()) <= 40 * U() && o.v() >= sk(n) * U() ==> iabs(#[trigger] a.qdiv(o)) <= sq(n),
        forall|q: Decimal| iabs(q.v()) <= srb(n) ==> iabs(#[trigger] factor.qmul(q)) <= sf(n),
{
    assert(0 <= (2 * n + 1) * (2 * n) <= 100000 && (2 * n + 1) * (2 * n) >= 6 * n && (n >= 2 ==> (2 * n + 1) * (2 * n) >= 10 * n) && (n >= 3 ==> (2 * n + 1) * (2 * n) >= 14 * n) && (n >= 4 ==> (2 * n + 1) * (2 * n) >= 72)) by (nonlinear_arith) requires 1 <= n < 100;
    assert forall|a: Decimal, o: Decimal| iabs(a.v()) <= 40 * U() && o.v() >= sk(n) * U() implies iabs(#[trigger] a.qdiv(o)) <= sq(n) by {
        if n == 1 { lemma_qdiv(a, o, 40 * U(), 6 * U()); } else if n == 2 { lemma_qdiv(a, o, 40 * U(), 20 * U()); } else if n == 3 { lemma_qdiv(a, o, 40 * U(), 42 * U()); } else { lemma_qdiv(a, o, 40 * U(), 72 * U()); } }
    assert forall|q: Decimal| iabs(q.v()) <= srb(n) implies iabs(#[trigger] factor.qmul(q)) <= sf(n) by {
        if n == 1 { lemma_qmul(factor, q, sfb(1), srb(1)); } else if n == 2 { lemma_qmul(factor, q, sfb(2), srb(2)); } else if n == 3 { lemma_qmul(factor, q, sfb(3), srb(3)); } else { lemma_qmul(factor, q, sfb(4), srb(4)); } }
}
proof fn lemma_radians(r: Decimal)
    requires iabs(r.v()) <= 62831853071795864769252867666,
    ensures iabs(r.qmul(r)) <= 395 * U() / 10,
{ lemma_qmul(r, r, 62831853071795864769252867666, 62831853071795864769252867666); }
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_sin
//@ ret r
//@ spec
        ensures r is Some ==> iabs(r->0.v()) <= 30000 * U(),
//@ loops 1
//@ loop 0
            invariant iabs(xx.v()) <= 40 * U(), iabs(factor.v()) <= sfb(n as int), iabs(result.v()) <= 200 * U() * n,
//@ loop 0 start
            proof { lemma_sin_step(xx, factor, n as int); }
//@ before let xx
        proof { lemma_radians(radians); }
//@ end
}
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_factorial
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ spec
        ensures self.v() < 0 ==> r is None,
            self.v() == U() ==> r is Some && r->0.v() == U(),
//@ loops 1
//@ loop 0
            invariant n.v() >= 0, self.v() >= 0, self.v() != U(),
            decreases n.v(),
//@ end
}

//@ extract prexel/src/decimal/decimal_ext.rs | fn gamma
//@ rewrite fn gamma ( mut x : Decimal ) ==> fn gamma ( v_x : Decimal )
//@ rewrite const G : Decimal = $$a ; ==> let G : Decimal = $$a ;
//@ rewrite const P : [ Decimal ; $n ] = $a ; ==> let P : [ Decimal ; $n ] = $a ;
//@ rewrite for ( n , coefficient ) in P . iter ( ) . enumerate ( ) . skip ( 1 ) { $$b } ==> let mut n : usize = 1 ; while n < P . len ( ) { let coefficient = P [ n ] ; $$b n = n + 1 ; }
//@ ret r
//@ spec
        requires U() <= v_x.v() <= 2 * U(),
        decreases 0int,
//@ start
        let mut x = v_x;
        proof {
            consts::ax_TWO(); consts::ax_PI(); lemma_twice(consts::k_PI());
            assert forall|a: Decimal, b: Decimal| iabs(a.v()) <= 20 * U() && iabs(b.v()) <= 1000000000000000 * U() implies iabs(#[trigger] a.qmul(b)) <= 20000000000000001 * U() by { lemma_qmul(a, b, 20 * U(), 1000000000000000 * U()); }
            assert forall|a: Decimal, b: Decimal| iabs(a.v()) <= 21000000000000000 * U() && iabs(b.v()) <= 2020 * U() implies iabs(#[trigger] a.qmul(b)) <= 45000000000000000000 * U() by { lemma_qmul(a, b, 21000000000000000 * U(), 2020 * U()); }
            assert forall|a: Decimal, b: Decimal| iabs(a.v()) <= 46000000000000000000 * U() && iabs(b.v()) <= 1500 * U() implies iabs(#[trigger] a.qmul(b)) <= LIM() by { lemma_qmul(a, b, 46000000000000000000 * U(), 1500 * U()); }
        }
//@ loop 0
            invariant 1 <= n <= 15, 0 <= x.v() <= U(), iabs(factor.v()) <= 100 * U() * n, forall|k: int| 0 <= k < 15 ==> iabs(#[trigger] P@[k].v()) <= 60 * U(), P@.len() == 15,
            decreases 15 - n,
//@ loop 0 start
            proof { assert forall|c: Decimal, o: Decimal| o.v() >= U() && iabs(c.v()) <= 60 * U() implies iabs(#[trigger] c.qdiv(o)) <= 60 * U() + 1 by { lemma_qdiv(c, o, 60 * U(), U()); } }
//@ end

pub open spec fn ck(n: int) -> int { if n == 2 { 12 } else if n == 3 { 30 } else { 56 } }
pub open spec fn crb(n: int) -> int { if n == 2 { 34 * U() / 10 } else if n == 3 { 14 * U() / 10 } else { 8 * U() / 10 } }
pub open spec fn cfb(n: int) -> int { if n == 2 { 20 * U() } else if n == 3 { 69 * U() } else { 98 * U() } }
pub open spec fn cq(n: int) -> int { if n == 2 { 335 * U() / 100 } else if n == 3 { 135 * U() / 100 } else { 72 * U() / 100 } }
pub open spec fn cf(n: int) -> int { if n == 2 { 681 * U() / 10 } else if n == 3 { 967 * U() / 10 } else { 79 * U() } }
proof fn lemma_cos_step(xx: Decimal, factor: Decimal, n: int)
    requires iabs(xx.v()) <= 40 * U(), 2 <= n < 100, iabs(factor.v()) <= cfb(n),
    ensures 0 <= 2 * n * (2 * n - 1) <= 100000, 2 * n * (2 * n - 1) >= ck(n),
        forall|a: Decimal, o: Decimal| iabs(a.v()) <= 40 * U() && o.v() >= ck(n) * U() ==> iabs(#[trigger] a.qdiv(o)) <= cq(n),
        forall|q: Decimal| iabs(q.v()) <= crb(n) ==> iabs(#[trigger] factor.qmul(q)) <= cf(n),
{
    assert(0 <= 2 * n * (2 * n - 1) <= 100000 && 2 * n * (2 * n - 1) >= 6 * n && (n >= 3 ==> 2 * n * (2 * n - 1) >= 10 * n) && (n >= 4 ==> 2 * n * (2 * n - 1) >= 56)) by (nonlinear_arith) requires 2 <= n < 100;
    assert forall|a: Decimal, o: Decimal| iabs(a.v()) <= 40 * U() && o.v() >= ck(n) * U() implies iabs(#[trigger] a.qdiv(o)) <= cq(n) by {
        if n == 2 { lemma_qdiv(a, o, 40 * U(), 12 * U()); } else if n == 3 { lemma_qdiv(a, o, 40 * U(), 30 * U()); } else { lemma_qdiv(a, o, 40 * U(), 56 * U()); } }
    assert forall|q: Decimal| iabs(q.v()) <= crb(n) implies iabs(#[trigger] factor.qmul(q)) <= cf(n) by {
        if n == 2 { lemma_qmul(factor, q, cfb(2), crb(2)); } else if n == 3 { lemma_qmul(factor, q, cfb(3), crb(3)); } else { lemma_qmul(factor, q, cfb(4), crb(4)); } }
}
proof fn lemma_sq(z: Decimal, B: int)
    requires iabs(z.v()) <= B,
    ensures z.v() * z.v() >= 0, iabs(z.qmul(z)) <= (B * B) / U() + 1,
{ assert(z.v() * z.v() >= 0) by (nonlinear_arith); lemma_qmul(z, z, B, B); }
impl Decimal {
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_cos
//@ ret r
//@ spec
        ensures r is Some ==> apart(r->0.v()),
//@ loops 1
//@ loop 0
            invariant iabs(xx.v()) <= 40 * U(), iabs(factor.v()) <= cfb(n as int), iabs(result.v()) <= 200 * U() * n,
//@ loop 0 start
            proof { lemma_cos_step(xx, factor, n as int); }
//@ before let xx
        proof { lemma_radians(radians);
            assert forall|a: Decimal, o: Decimal| iabs(a.v()) <= 396 * U() / 10 && o.v() == 2 * U() implies iabs(#[trigger] a.qdiv(o)) <= 199 * U() / 10 by { lemma_qdiv(a, o, 396 * U() / 10, 2 * U()); } }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_tan
//@ ret r
//@ before let result
        proof { assert forall|a: Decimal| iabs(a.v()) <= 30000 * U() implies iabs(#[trigger] a.qdiv(cos)) <= U() * U() by { lemma_qdiv(a, cos, 30000 * U(), 900000000000); } }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn asin
//@ ret r
//@ spec
        ensures r is Some ==> iabs(r->0.v()) <= 9 * U(),
//@ before let xx
            proof { lemma_sq(self, U()); }
//@ before let result
            proof {
                lemma_qdiv(self, b0, U(), U());
                assert forall|o: Decimal| iabs(o.v()) <= 4 * U() implies iabs(#[trigger] consts::k_TWO().qmul(o)) <= 8 * U() + 1 by { consts::ax_TWO(); lemma_qmul(consts::k_TWO(), o, 2 * U(), 4 * U()); }
            }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn acos
//@ ret r
//@ spec
        ensures r is Some ==> iabs(r->0.v()) <= 9 * U(),
//@ before let xx
            proof { lemma_sq(self, U()); }
//@ before let result
            proof {
                lemma_quot7(a0, b0);
                assert forall|o: Decimal| iabs(o.v()) <= 4 * U() implies iabs(#[trigger] consts::k_TWO().qmul(o)) <= 8 * U() + 1 by { consts::ax_TWO(); lemma_qmul(consts::k_TWO(), o, 2 * U(), 4 * U()); }
            }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn atan
//@ ret r
//@ spec
        ensures iabs(self.v()) <= U() ==> iabs(r.v()) <= 2 * U(), iabs(r.v()) <= 4 * U(),
        decreases (if iabs(self.v()) > U() { 1int } else { 0int }),
//@ start
        proof { if iabs(self.v()) >= U() { lemma_div_b(U(), self.v(), U(), U()); } consts::ax_TWO();
            assert forall|i: u32| i <= 100 implies iabs(#[trigger] consts::k_TWO().qmul(s_dec_u32(i))) <= 201 * U() by { lemma_qmul(consts::k_TWO(), s_dec_u32(i), 2 * U(), 100 * U()); } }
//@ loops 1
//@ loop 0
            invariant 1 <= i <= 100, result.v() >= (2 * i - 1) * U(), iabs(self.v()) <= U(),
            decreases i,
//@ loop 0 start
            proof {
                consts::ax_TWO();
                assert forall|o: Decimal| iabs(o.v()) <= 99 * U() implies iabs(#[trigger] self.qmul(o)) <= 99 * U() + 1 by { lemma_qmul(self, o, U(), 99 * U()); }
                assert forall|z: Decimal| iabs(z.v()) <= 100 * U() implies iabs(#[trigger] z.qmul(z)) <= 10001 * U() && z.v() * z.v() >= 0 by { lemma_sq(z, 100 * U()); }
                assert forall|z: Decimal| iabs(z.v()) <= 10100 * U() implies iabs(#[trigger] z.qdiv(result)) <= 10100 * U() + 1 by { lemma_qdiv(z, result, 10100 * U(), U()); }
                lemma_qmul(consts::k_TWO(), s_dec_u32(i), 2 * U(), 100 * U());
            }
//@ loop 0 after
        proof { lemma_qdiv(self, result, U(), U()); }
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn atan2
//@ ret r
//@ spec
        ensures iabs(r.v()) <= 9 * U(),
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn sinh
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn cosh
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn tanh
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn checked_asinh
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn acosh
//@ ret r
//@ end
//@ extract prexel/src/decimal/decimal_ext.rs | impl DecimalExt for Decimal / fn atanh
//@ ret r
//@ end
}

proof fn lemma_quot7(a: Decimal, b: Decimal)
    requires 0 <= a.v() <= 7 * U(), b.v() >= 1,
    ensures iabs(a.qdiv(b)) <= LIM(),
{
    let n = a.v() * U(); let q = n / b.v();
    assert(0 <= q && q <= n) by (nonlinear_arith) requires q == n / b.v(), b.v() >= 1, n >= 0;
}
