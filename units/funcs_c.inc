// ---------------------------------------------------------------- the functions of complex/mod.rs
pub mod cpx {
use super::*;
/// num_traits::Float, as far as these functions use it
pub trait Float: Sized + Copy { spec fn s_is_zero(&self) -> bool; fn is_zero(&self) -> (r: bool) ensures r == self.s_is_zero(); fn is_sign_negative(self) -> bool; }
pub trait FromPrimitive: Sized { spec fn s_from_f64(n: f64) -> Option<Self>; fn from_f64(n: f64) -> (r: Option<Self>) ensures r == Self::s_from_f64(n); }
#[derive(Clone, Copy)]
pub struct Complex<T> { pub re: T, pub im: T }
impl<T: Copy> Complex<T> {
    pub fn new(re: T, im: T) -> Complex<T> { Complex { re, im } }
//@ repeat M | sqrt | ln | exp | sin | cos | tan | asin | acos | atan | sinh | cosh | tanh | asinh | acosh | atanh | inv
    pub uninterp spec fn s_@M@(self) -> Complex<T>;
    #[verifier::external_body]
    pub fn @M@(&self) -> (r: Complex<T>) ensures r == self.s_@M@() { unimplemented!() }
//@ endrepeat
    pub uninterp spec fn s_log(self, base: T) -> Complex<T>;
    #[verifier::external_body]
    pub fn log(&self, base: T) -> (r: Complex<T>) ensures r == self.s_log(base) { unimplemented!() }
    #[verifier::external_body]
    pub fn powc(&self, exp: Complex<T>) -> (r: Complex<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_tmul<T>(a: T, b: T) -> T { unimplemented!() }
#[verifier::external_body]
pub fn v_tadd<T>(a: T, b: T) -> T { unimplemented!() }
#[verifier::external_body]
pub fn v_tsub<T>(a: T, b: T) -> T { unimplemented!() }
pub open spec fn one<T>(args: Seq<Complex<T>>, r: Result<Complex<T>>, o: Complex<T>) -> bool {
    if args.len() != 1 { count_err(r) } else { r == Ok::<Complex<T>, Error>(o) }
}
//@ repeat S NAME O | Sqrt sqrt args@[0].s_sqrt() | Ln ln args@[0].s_ln() | Exp exp args@[0].s_exp() | Sin sin args@[0].s_sin() | Cos cos args@[0].s_cos() | Tan tan args@[0].s_tan() | Csc csc args@[0].s_sin().s_inv() | Sec sec args@[0].s_cos().s_inv() | Cot cot args@[0].s_tan().s_inv() | ASin asin args@[0].s_asin() | ACos acos args@[0].s_acos() | ATan atan args@[0].s_atan() | ACsc acsc args@[0].s_inv().s_asin() | ASec asec args@[0].s_inv().s_acos() | ACot acot args@[0].s_inv().s_atan() | Sinh sinh args@[0].s_sinh() | Cosh cosh args@[0].s_cosh() | Tanh tanh args@[0].s_tanh() | Csch csch args@[0].s_sinh().s_inv() | Sech sech args@[0].s_cosh().s_inv() | Coth coth args@[0].s_tanh().s_inv() | ASinh asinh args@[0].s_asinh() | ACosh acosh args@[0].s_acosh() | ATanh atanh args@[0].s_atanh() | ACsch acsch args@[0].s_inv().s_asinh() | ASech asech args@[0].s_inv().s_acosh() | ACoth acoth args@[0].s_inv().s_atanh()
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod complex / mod ops / impl Function<Complex<T>> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod complex / mod ops / impl Function<Complex<T>> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < T : Float > (
//@ ret r
//@ spec
        ensures one(args@, r, @O@),
//@ end
}
//@ endrepeat
pub struct LogFunction;
impl LogFunction {
//@ extract prexel/src/complex/mod.rs | mod ops / impl Function<Complex<T>> for LogFunction / fn call
//@ rewrite fn call ( ==> fn call < T : Float + FromPrimitive > (
//@ rewrite match $$x { n if $$c => { $$a } , _ => $$b , } ==> { let n = $$x ; if $$c { $$a } else { $$b } }
//@ ret r
//@ spec
        ensures if args@.len() == 1 || args@.len() == 2 { !count_err(r) } else { count_err(r) },
            args@.len() == 1 ==> match T::s_from_f64(10f64) { Some(ten) => r == Ok::<Complex<T>, Error>(args@[0].s_log(ten)), None => r is Err },
            args@.len() == 2 ==> (r is Ok ==> r == Ok::<Complex<T>, Error>(args@[0].s_log(args@[1].re))) && (args@[1].im.s_is_zero() ==> r is Ok),
//@ end
}
pub struct RandFunction;
impl RandFunction {
//@ extract prexel/src/complex/mod.rs | mod ops / impl Function<Complex<T>> for RandFunction / fn call
//@ rewrite fn call ( ==> fn call < T : Float + FromPrimitive + Debug + Display > (
//@ rewrite random :: < f64 > ( ) ==> random()
//@ rewrite min + ((max - min) * random_t::<T>()?) ==> v_tadd(min, v_tmul(v_tsub(max, min), random_t::<T>()?))
//@ rewrite random_t::<T>()? * max ==> v_tmul(random_t::<T>()?, max)
//@ rewrite format!($$a) ==> v_fmt()
//@ nested try_get_real r0
        ensures !count_err(r0),
//@ nested random_t r0
        ensures !count_err(r0),
//@ ret r
//@ spec
        ensures if args@.len() <= 2 { !count_err(r) } else { count_err(r) },
//@ end
}
} // mod cpx
