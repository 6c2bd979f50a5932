// ---------------------------------------------------------------- decimal/mod.rs: operators and functions
//@ unrewrite n -= Decimal
//@ unrewrite result +=
#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;
pub open spec fn ok_or(r: Result<Decimal>, v: Option<Decimal>) -> bool { match v { Some(x) => r == Ok::<Decimal, Error>(x), None => r is Err && r->Err_0.skind() is Overflow } }
pub open spec fn count_err(r: Result<Decimal>) -> bool { r is Err && r->Err_0.skind() is InvalidArgumentCount }
/// the value, or an overflow error
pub open spec fn opt(r: Result<Decimal>) -> Option<Decimal> { match r { Ok(x) => Some(x), Err(_) => None } }

/// left fold of the arguments with `f`; None as soon as a step is None
pub open spec fn fold1(s: Seq<Decimal>, f: spec_fn(Decimal, Decimal) -> Option<Decimal>) -> Option<Decimal>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s.len() == 1 { Some(s[0]) }
    else { match fold1(s.drop_last(), f) { Some(x) => f(x, s.last()), None => None } }
}
proof fn lemma_fold_step(s: Seq<Decimal>, i: int, f: spec_fn(Decimal, Decimal) -> Option<Decimal>)
    requires 0 <= i < s.len(),
    ensures i == 0 ==> fold1(s.take(i + 1), f) == Some(s[0]),
        i > 0 ==> fold1(s.take(i + 1), f) == (match fold1(s.take(i), f) { Some(x) => f(x, s[i]), None => None }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_fold_none(s: Seq<Decimal>, i: int, f: spec_fn(Decimal, Decimal) -> Option<Decimal>)
    requires 0 < i <= s.len(), fold1(s.take(i), f) is None,
    ensures fold1(s, f) is None,
    decreases s.len() - i,
{
    if i < s.len() { lemma_fold_step(s, i, f); lemma_fold_none(s, i + 1, f); }
    else { assert(s.take(i) =~= s); }
}
pub open spec fn f_add() -> spec_fn(Decimal, Decimal) -> Option<Decimal> { |a: Decimal, b: Decimal| a.s_cadd(b) }
pub open spec fn f_mul() -> spec_fn(Decimal, Decimal) -> Option<Decimal> { |a: Decimal, b: Decimal| a.s_cmul(b) }
pub open spec fn avg_spec(s: Seq<Decimal>, n: usize) -> Option<Decimal> {
    match fold1(s, f_add()) { Some(x) => match Decimal::s_from_usize(n) { Some(d) => x.s_cdiv(d), None => None }, None => None }
}

//@ repeat OP SYM | Add s_cadd | Sub s_csub | Mul s_cmul | Div s_cdiv | Mod s_crem
pub struct @OP@Operator;
impl @OP@Operator {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl BinaryFunction<Decimal> for @OP@Operator / fn call
//@ ret r
//@ spec
        ensures ok_or(r, left.@SYM@(right)),
//@ end
}
//@ endrepeat
pub struct PowOperator;
impl PowOperator {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl BinaryFunction<Decimal> for PowOperator / fn call
//@ ret r
//@ spec
        ensures powd_ok(left, right, opt(r)), r is Err ==> r->Err_0.skind() is Overflow,
//@ end
}
pub struct UnaryMinus;
impl UnaryMinus {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl UnaryFunction<Decimal> for UnaryMinus / fn call
//@ ret r
//@ spec
        ensures r is Ok && r->Ok_0.v() == -value.v(),
//@ end
}
pub struct Factorial;
impl Factorial {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl UnaryFunction<Decimal> for Factorial / fn call
//@ ret r
//@ spec
        ensures value.v() < 0 ==> r is Err,
//@ end
}
//@ repeat STRUCT F | SumFunction f_add | ProdFunction f_mul
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl Function<Decimal> for @STRUCT@ / fn call
//@ ret r
//@ spec
        ensures args@.len() == 0 ==> count_err(r),
            args@.len() > 0 ==> ok_or(r, fold1(args@, @F@())),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant
                it.index@ == 0 ==> result is None,
                it.index@ > 0 ==> result is Some && fold1(args@.take(it.index@), @F@()) == result,
//@ loop 0 start
            proof { lemma_fold_step(args@, it.index@, @F@()); if it.index@ > 0 && fold1(args@.take(it.index@ + 1), @F@()) is None { lemma_fold_none(args@, it.index@ + 1, @F@()); } }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}
//@ endrepeat
pub struct AvgFunction;
impl AvgFunction {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl Function<Decimal> for AvgFunction / fn call
//@ rewrite method and_then
//@ ret r
//@ spec
        ensures args@.len() == 0 ==> count_err(r),
            args@.len() > 0 ==> ok_or(r, avg_spec(args@, args@.len() as usize)),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant
                it.index@ == 0 ==> sum is None,
                it.index@ > 0 ==> sum is Some && fold1(args@.take(it.index@), f_add()) == sum,
//@ loop 0 start
            proof { lemma_fold_step(args@, it.index@, f_add()); if it.index@ > 0 && fold1(args@.take(it.index@ + 1), f_add()) is None { lemma_fold_none(args@, it.index@ + 1, f_add()); } }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}
//@ repeat MOD S | math_ops Floor | math_ops Ceil | math_ops Truncate | math_ops Round | math_ops ToRadians | math_ops Sqrt | math_ops Cbrt | math_ops Exp | math_ops Ln | math_ops ToDegrees | math_ops Log | trig_ops Sin | trig_ops Cos | trig_ops Tan | trig_ops Csc | trig_ops Sec | trig_ops Cot | trig_ops ASin | trig_ops ACos | trig_ops ACsc | trig_ops ASec | trig_ops ACot | trig_ops Sinh | trig_ops Cosh | trig_ops Tanh | trig_ops Csch | trig_ops Sech | trig_ops Coth | trig_ops ASinh | trig_ops ACosh | trig_ops ATanh | trig_ops ACsch | trig_ops ASech | trig_ops ACoth | trig_ops ATan
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod decimal / mod @MOD@ / impl Function<Decimal> for @S@Function / fn call
//@ rewrite method map
//@ rewrite method and_then
//@ ret r
//@ spec
        ensures args@.len() == 0 ==> count_err(r),
//@ end
}
//@ endrepeat
