// ---------------------------------------------------------------- the functions of decimal/mod.rs
pub mod dec {
use super::*;
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Decimal { pub _p: () }
pub mod consts { use super::*; 
    pub uninterp spec fn s_ten() -> Decimal;
    #[verifier::external_body]
    pub exec const TEN: Decimal ensures TEN == s_ten() { Decimal { _p: () } }
}
/// the methods of DecimalExt (and rust_decimal's own) as functions of their arguments
impl Decimal {
//@ repeat M | floor | ceil | trunc | round | to_radians | to_degrees | atan
    pub uninterp spec fn s_@M@(&self) -> Decimal;
    #[verifier::external_body]
    pub fn @M@(&self) -> (r: Decimal) ensures r == self.s_@M@() { unimplemented!() }
//@ endrepeat
//@ repeat M | checked_sqrt | checked_cbrt | checked_exp | checked_ln | checked_to_degrees | checked_sin | checked_cos | checked_tan | asin | acos | sinh | cosh | tanh | checked_asinh | acosh | atanh | checked_inv
    pub uninterp spec fn s_@M@(self) -> Option<Decimal>;
    #[verifier::external_body]
    pub fn @M@(self) -> (r: Option<Decimal>) ensures r == self.s_@M@() { unimplemented!() }
//@ endrepeat
    pub uninterp spec fn s_checked_log(self, base: Decimal) -> Option<Decimal>;
    #[verifier::external_body]
    pub fn checked_log(self, base: Decimal) -> (r: Option<Decimal>) ensures r == self.s_checked_log(base) { unimplemented!() }
    pub uninterp spec fn s_atan2(self, x: Decimal) -> Decimal;
    #[verifier::external_body]
    pub fn atan2(self, x: Decimal) -> (r: Decimal) ensures r == self.s_atan2(x) { unimplemented!() }
}
pub assume_specification<T>[std::option::Option::<std::option::Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None::<T> });

/// exactly one argument and the outcome `o`
pub open spec fn one(args: Seq<Decimal>, r: Result<Decimal>, o: Option<Decimal>) -> bool {
    if args.len() != 1 { count_err(r) } else { match o { Some(x) => r == Ok::<Decimal, Error>(x), None => other_err(r) } }
}
pub open spec fn recip(x: Decimal) -> Option<Decimal> { x.s_checked_inv() }
pub open spec fn rc(o: Option<Decimal>) -> Option<Decimal> { match o { Some(x) => recip(x), None => None } }
//@ repeat M | asin | acos | checked_asinh | acosh | atanh
pub open spec fn t_@M@(o: Option<Decimal>) -> Option<Decimal> { match o { Some(x) => x.s_@M@(), None => None } }
//@ endrepeat
pub open spec fn t_atan(o: Option<Decimal>) -> Option<Decimal> { match o { Some(x) => Some(x.s_atan()), None => None } }
pub open spec fn deg(o: Option<Decimal>) -> Option<Decimal> { match o { Some(x) => Some(x.s_to_degrees()), None => None } }

//@ repeat MOD S NAME O | math_ops Floor floor Some(args@[0].s_floor()) | math_ops Ceil ceil Some(args@[0].s_ceil()) | math_ops Truncate truncate Some(args@[0].s_trunc()) | math_ops Round round Some(args@[0].s_round()) | math_ops ToRadians to_radians Some(args@[0].s_to_radians()) | math_ops Sqrt sqrt args@[0].s_checked_sqrt() | math_ops Cbrt cbrt args@[0].s_checked_cbrt() | math_ops Exp exp args@[0].s_checked_exp() | math_ops Ln ln args@[0].s_checked_ln() | math_ops ToDegrees to_degrees args@[0].s_checked_to_degrees() | trig_ops Sin sin args@[0].s_to_radians().s_checked_sin() | trig_ops Cos cos args@[0].s_to_radians().s_checked_cos() | trig_ops Tan tan args@[0].s_to_radians().s_checked_tan() | trig_ops Csc csc rc(args@[0].s_to_radians().s_checked_sin()) | trig_ops Sec sec rc(args@[0].s_to_radians().s_checked_cos()) | trig_ops Cot cot rc(args@[0].s_to_radians().s_checked_tan()) | trig_ops ASin asin deg(args@[0].s_asin()) | trig_ops ACos acos deg(args@[0].s_acos()) | trig_ops ACsc acsc deg(t_asin(recip(args@[0]))) | trig_ops ASec asec deg(t_acos(recip(args@[0]))) | trig_ops ACot acot deg(t_atan(recip(args@[0]))) | trig_ops Sinh sinh args@[0].s_sinh() | trig_ops Cosh cosh args@[0].s_cosh() | trig_ops Tanh tanh args@[0].s_tanh() | trig_ops Csch csch rc(args@[0].s_sinh()) | trig_ops Sech sech rc(args@[0].s_cosh()) | trig_ops Coth coth rc(args@[0].s_tanh()) | trig_ops ASinh asinh args@[0].s_checked_asinh() | trig_ops ACosh acosh args@[0].s_acosh() | trig_ops ATanh atanh args@[0].s_atanh() | trig_ops ACsch acsch t_checked_asinh(recip(args@[0])) | trig_ops ASech asech t_acosh(recip(args@[0])) | trig_ops ACoth acoth t_atanh(recip(args@[0]))
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod decimal / mod @MOD@ / impl Function<Decimal> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod decimal / mod @MOD@ / impl Function<Decimal> for @S@Function / fn call
//@ rewrite method map
//@ rewrite method and_then
//@ ret r
//@ spec
        ensures one(args@, r, @O@),
//@ end
}
//@ endrepeat
pub struct LogFunction;
impl LogFunction {
//@ extract expanded:prexel | mod decimal / mod math_ops / impl Function<Decimal> for LogFunction / fn call
//@ ret r
//@ spec
        ensures args@.len() == 1 ==> one(args@, r, args@[0].s_checked_log(consts::s_ten())),
            args@.len() == 2 ==> one(args@.take(1), r, args@[0].s_checked_log(args@[1])),
            args@.len() == 0 || args@.len() > 2 ==> count_err(r),
//@ end
}
pub struct ATanFunction;
impl ATanFunction {
//@ extract expanded:prexel | mod decimal / mod trig_ops / impl Function<Decimal> for ATanFunction / fn call
//@ ret r
//@ spec
        ensures args@.len() == 1 ==> one(args@, r, Some(args@[0].s_atan().s_to_degrees())),
            args@.len() == 2 ==> one(args@.take(1), r, Some(args@[0].s_atan2(args@[1]).s_to_degrees())),
            args@.len() == 0 || args@.len() > 2 ==> count_err(r),
//@ end
}
} // mod dec
