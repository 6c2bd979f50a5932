// ---------------------------------------------------------------- num_traits (contracts of the dependency, met by the integers)
pub trait Zero: VNum {
    fn zero() -> (r: Self) ensures Self::is_int() ==> r.v() == 0;
    spec fn s_is_zero(self) -> bool;
    fn is_zero(&self) -> (r: bool) ensures r == self.s_is_zero(), Self::is_int() ==> r == (self.v() == 0);
}
pub trait One: VNum {
    fn one() -> (r: Self) ensures Self::is_int() ==> r.v() == 1;
}
pub trait FromPrimitive: VNum {
    fn from_f64(n: f64) -> (r: Option<Self>);
    spec fn s_from_usize(n: usize) -> Option<Self>;
    proof fn law_from_usize(n: usize) ensures Self::is_int() ==> exact(Self::s_from_usize(n), n as int);
    fn from_usize(n: usize) -> (r: Option<Self>) ensures r == Self::s_from_usize(n), Self::is_int() ==> exact(r, n as int);
}
pub trait ToPrimitive: VNum {
    fn to_f64(&self) -> (r: Option<f64>);
}
#[verifier::external_body]
pub fn gamma(x: f64) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn v_fadd(a: f64, b: f64) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn v_fmul(a: f64, b: f64) -> f64 { unimplemented!() }

/// the order on N is the order of the integers held
pub open spec fn int_order<N: VNum + PartialOrd>() -> bool {
    &&& N::is_int()
    &&& N::obeys_partial_cmp_spec()
    &&& N::obeys_eq_spec()
    &&& forall|a: N, b: N| #[trigger] a.eq_spec(&b) == (a.v() == b.v())
    &&& forall|a: N, b: N| #[trigger] a.partial_cmp_spec(&b) == Some(if a.v() < b.v() { core::cmp::Ordering::Less } else if a.v() > b.v() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal })
}
/// clone gives the same value
pub open spec fn clone_ok<N: Clone>() -> bool { forall|a: N, b: N| #[trigger] call_ensures(N::clone, (&a,), b) ==> a == b }

//@ repeat T | i8 | i16 | i32 | i64 | i128 | isize | u8 | u16 | u32 | u64 | u128 | usize
proof fn int_types_@T@() ensures int_order::<@T@>(), clone_ok::<@T@>() {}
impl Zero for @T@ {
    fn zero() -> @T@ { 0 }
    open spec fn s_is_zero(self) -> bool { self == 0 }
    fn is_zero(&self) -> bool { *self == 0 }
}
impl One for @T@ { fn one() -> @T@ { 1 } }
//@ endrepeat

// ---------------------------------------------------------------- operators (prexel/src/ops/checked.rs)
pub open spec fn ok_or<N>(r: Result<N>, v: Option<N>, k: ErrorKind) -> bool {
    match v { Some(x) => r == Ok::<N, Error>(x), None => r matches Err(e) && e.skind() == k }
}
/// exact, or the error kind `k` because the result is out of range
pub open spec fn exact_or<N: VNum>(r: Result<N>, i: int, k: ErrorKind) -> bool {
    match r { Ok(x) => x.v() == i, Err(e) => !N::rep(i) && e.skind() == k }
}
pub open spec fn err_is<N>(r: Result<N>, k: ErrorKind) -> bool { r matches Err(e) && e.skind() == k }

pub struct AddOperator;
impl AddOperator {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for AddOperator / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedAdd > (
//@ ret r
//@ spec
        ensures ok_or(r, left.s_add(right), ErrorKind::Overflow),
            N::is_int() ==> exact_or(r, left.v() + right.v(), ErrorKind::Overflow),
//@ end
}
pub struct SubOperator;
impl SubOperator {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for SubOperator / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedSub > (
//@ ret r
//@ spec
        ensures ok_or(r, left.s_sub(right), ErrorKind::Overflow),
            N::is_int() ==> exact_or(r, left.v() - right.v(), ErrorKind::Overflow),
//@ end
}
pub struct MulOperator;
impl MulOperator {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for MulOperator / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedMul > (
//@ ret r
//@ spec
        ensures ok_or(r, left.s_mul(right), ErrorKind::Overflow),
            N::is_int() ==> exact_or(r, left.v() * right.v(), ErrorKind::Overflow),
//@ end
}
pub struct DivOperator;
impl DivOperator {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for DivOperator / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedDiv + Zero > (
//@ ret r
//@ spec
        ensures right.s_is_zero() ==> err_is(r, ErrorKind::DivisionByZero),
            !right.s_is_zero() ==> ok_or(r, left.s_div(right), ErrorKind::Overflow),
            (N::is_int() && right.v() == 0) ==> err_is(r, ErrorKind::DivisionByZero),
            (N::is_int() && right.v() != 0) ==> exact_or(r, tdiv(left.v(), right.v()), ErrorKind::Overflow),
//@ end
}
pub struct ModOperator;
impl ModOperator {
//@ extract prexel/src/ops/checked.rs | impl BinaryFunction<N> for ModOperator / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedRem + Zero > (
//@ ret r
//@ spec
        ensures right.s_is_zero() ==> err_is(r, ErrorKind::DivisionByZero),
            !right.s_is_zero() ==> ok_or(r, left.s_rem(right), ErrorKind::Overflow),
            (N::is_int() && right.v() == 0) ==> err_is(r, ErrorKind::DivisionByZero),
            (N::is_int() && right.v() != 0) ==> (match r {
                Ok(x) => x.v() == trem(left.v(), right.v()),
                Err(e) => e.skind() == ErrorKind::Overflow && !N::rep(tdiv(left.v(), right.v())) }),
//@ end
}
pub struct UnaryMinus;
impl UnaryMinus {
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for UnaryMinus / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedNeg > (
//@ ret r
//@ spec
        ensures ok_or(r, value.s_neg(), ErrorKind::Overflow),
            N::is_int() ==> exact_or(r, -value.v(), ErrorKind::Overflow),
//@ end
}
pub struct UnaryPlus;
impl UnaryPlus {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl UnaryFunction<N> for UnaryPlus / fn call
//@ rewrite fn call ( ==> fn call < N > (
//@ ret r
//@ spec
        ensures r == Ok::<N, Error>(value),
//@ end
}

pub open spec fn fact(n: int) -> int decreases n { if n <= 0 { 1 } else { n * fact(n - 1) } }
/// n * (n-1) * ... * (k+1)
pub open spec fn falling(n: int, k: int) -> int decreases n - k { if n <= k { 1 } else { falling(n, k + 1) * (k + 1) } }
proof fn lemma_falling(n: int, k: int)
    requires 0 <= k <= n,
    ensures falling(n, k) * fact(k) == fact(n), falling(n, k) >= 1, fact(k) >= 1,
    decreases n - k,
{
    lemma_fact_pos(k);
    if k < n {
        lemma_falling(n, k + 1);
        let f = falling(n, k + 1); let g = fact(k);
        assert(fact(k + 1) == (k + 1) * fact(k)) by { reveal_with_fuel(fact, 2); }
        assert((f * (k + 1)) * g == f * ((k + 1) * g)) by(nonlinear_arith);
        assert(f * (k + 1) >= 1) by(nonlinear_arith) requires f >= 1, k >= 0;
    } else {
        assert(1 * fact(k) == fact(k));
    }
}
proof fn lemma_fact_pos(k: int)
    ensures fact(k) >= 1
    decreases k
{
    if k > 0 { lemma_fact_pos(k - 1); let g = fact(k - 1); assert(k * g >= 1) by(nonlinear_arith) requires k >= 1, g >= 1; }
}
/// a partial product already out of range puts the factorial out of range
proof fn lemma_fact_overflow<N: VNum>(n: int, k: int, one: N)
    requires N::is_int(), one.v() == 1, 0 <= k <= n, !N::rep(falling(n, k)),
    ensures !N::rep(fact(n)),
{
    lemma_falling(n, k);
    let f = falling(n, k); let g = fact(k);
    assert(f <= f * g) by(nonlinear_arith) requires f >= 1, g >= 1;
    one.v_rep();
    if N::rep(fact(n)) { N::v_interval(1, f, fact(n)); }
}

pub struct Factorial;
impl Factorial {
//@ extract prexel/src/ops/checked.rs | impl UnaryFunction<N> for Factorial / fn call
//@ rewrite fn call ( ==> fn call < N : Clone + Zero + One + CheckedSub + CheckedMul + PartialOrd + ToPrimitive + FromPrimitive > (
//@ rewrite total * gamma(n + 1f64) ==> v_fmul(total, gamma(v_fadd(n, 1f64)))
//@ ret r
//@ spec
        requires int_order::<N>(),
        ensures value.v() < 0 ==> err_is(r, ErrorKind::NegativeValue),
            value.v() >= 0 ==> exact_or(r, fact(value.v()), ErrorKind::Overflow),
//@ loops 1
//@ loop 0 before
        proof { value.v_rep(); }
        let ghost g_n = value.v(); let ghost g_one = total;
//@ loop 0
            invariant int_order::<N>(), value.v() == g_n, 0 <= next.v() <= g_n, g_n > 0, total.v() == falling(g_n, next.v()), g_one.v() == 1,
            ensures next.v() == 0,
            decreases next.v(),
//@ loop 0 start
            proof {
                let k = next.v();
                if k >= 1 {
                lemma_falling(g_n, k - 1); lemma_falling(g_n, k);
                assert(falling(g_n, k - 1) == falling(g_n, k) * k);
                if !N::rep(falling(g_n, k - 1)) { lemma_fact_overflow::<N>(g_n, k - 1, g_one); }
                next.v_rep(); g_one.v_rep();
                N::v_zero(); N::v_interval(0, k - 1, k);
                // an exact product always grows
                let f = falling(g_n, k);
                if k > 1 { assert(f * k > f) by(nonlinear_arith) requires f >= 1, k > 1; }
                }
            }
//@ loop 0 after
        proof { lemma_falling(g_n, 0); assert(fact(0) == 1); }
//@ end
}

pub struct AbsFunction;
impl AbsFunction {
//@ extract prexel/src/ops/checked.rs | impl Function<N> for AbsFunction / fn call
//@ rewrite fn call ( ==> fn call < N : Zero + PartialOrd + CheckedNeg + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_partial_cmp_spec(),
        ensures args@.len() != 1 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            (args@.len() == 1 && int_order::<N>()) ==> exact_or(r, iabs(args@[0].v()), ErrorKind::Overflow),
//@ end
}
