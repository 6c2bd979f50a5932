// ---------------------------------------------------------------- the float functions of ops/mod.rs
pub trait ToPrimitive: Sized { spec fn s_to_f64(&self) -> Option<f64>; fn to_f64(&self) -> (r: Option<f64>) ensures r == self.s_to_f64(); }
pub trait FromPrimitive: Sized { spec fn s_from_f64(n: f64) -> Option<Self>; fn from_f64(n: f64) -> (r: Option<Self>) ensures r == Self::s_from_f64(n); }
pub trait Display {}
pub trait Debug {}
//@ repeat M | sin | cos | tan | asin | acos | atan | sinh | cosh | tanh | asinh | acosh | atanh | to_radians | to_degrees | floor | ceil | trunc | round | sqrt | exp | ln | log10 | signum
pub uninterp spec fn s_@M@(x: f64) -> f64;
pub assume_specification[f64::@M@](x: f64) -> (r: f64) ensures r == s_@M@(x);
//@ endrepeat
pub uninterp spec fn s_atan2(y: f64, x: f64) -> f64;
pub assume_specification[f64::atan2](y: f64, x: f64) -> (r: f64) ensures r == s_atan2(y, x);
pub uninterp spec fn s_log(y: f64, base: f64) -> f64;
pub assume_specification[f64::log](y: f64, x: f64) -> (r: f64) ensures r == s_log(y, x);
pub uninterp spec fn s_nan(x: f64) -> bool;
pub uninterp spec fn s_infinite(x: f64) -> bool;
pub assume_specification[f64::is_nan](x: f64) -> (r: bool) ensures r == s_nan(x);
pub assume_specification[f64::is_infinite](x: f64) -> (r: bool) ensures r == s_infinite(x);
pub assume_specification[f64::is_sign_negative](x: f64) -> (r: bool);
/// 1 / x
pub uninterp spec fn s_inv(x: f64) -> f64;
pub trait Inv: Sized { type Output; fn inv(self) -> Self::Output; }
impl Inv for f64 { type Output = f64;
    #[verifier::external_body]
    fn inv(self) -> (r: f64) ensures r == s_inv(self) { unimplemented!() }
}
pub trait Zero: Sized { fn is_zero(&self) -> bool; }
impl Zero for f64 {
    #[verifier::external_body]
    fn is_zero(&self) -> bool { unimplemented!() }
}
/// the value, or the integer next to it when it is within the documented delta
pub uninterp spec fn s_approx(x: f64) -> f64;
pub trait Approx: Sized { fn approx(&self) -> Self; }
impl Approx for f64 {
    #[verifier::external_body]
    fn approx(&self) -> (r: f64) ensures r == s_approx(*self) { unimplemented!() }
}
pub fn v_approx(x: f64) -> (r: f64) ensures r == s_approx(x) { x.approx() }
#[verifier::external_body]
pub fn random() -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn v_fadd(a: f64, b: f64) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn v_fsub(a: f64, b: f64) -> f64 { unimplemented!() }
#[verifier::external_body]
pub fn v_fmul(a: f64, b: f64) -> f64 { unimplemented!() }

pub open spec fn finite(m: f64) -> bool { !s_nan(m) && !s_infinite(m) }
/// `r` is the number `m`, or an error because `m` is not finite or not representable in N
pub open spec fn out<N: FromPrimitive>(r: Result<N>, m: f64) -> bool {
    match r { Ok(x) => N::s_from_f64(m) == Some(x), Err(_) => !count_err(r) && (!finite(m) || N::s_from_f64(m) is None) }
}
pub open spec fn rad(x: f64) -> f64 { s_to_radians(x) }
pub open spec fn deg(x: f64) -> f64 { s_to_degrees(x) }
pub open spec fn got<N: FromPrimitive>(r: Result<N>, m: f64, fin: bool) -> bool { out(r, m) && (fin && r is Ok ==> finite(m)) }
/// the value may be approximated to the integer next to it before and after the function
pub open spec fn got_f<N: FromPrimitive>(r: Result<N>, x: f64, f: spec_fn(f64) -> f64, g: spec_fn(f64) -> f64, fin: bool) -> bool {
    got(r, g(f(x)), fin) || got(r, g(f(s_approx(x))), fin) || got(r, g(s_approx(f(x))), fin) || got(r, g(s_approx(f(s_approx(x)))), fin)
}
pub open spec fn unary_g<N: ToPrimitive + FromPrimitive>(args: Seq<N>, r: Result<N>, f: spec_fn(f64) -> f64, g: spec_fn(f64) -> f64, fin: bool) -> bool {
    if args.len() != 1 { count_err(r) } else {
        match args[0].s_to_f64() { None => other_err(r), Some(x) => (!finite(x) && other_err(r)) || got_f(r, x, f, g, fin) }
    }
}
/// r = f(x)
pub open spec fn unary<N: ToPrimitive + FromPrimitive>(args: Seq<N>, r: Result<N>, f: spec_fn(f64) -> f64, fin: bool) -> bool { unary_g(args, r, f, |x: f64| x, fin) }
/// r = 1 / f(x)
pub open spec fn unary_rec<N: ToPrimitive + FromPrimitive>(args: Seq<N>, r: Result<N>, f: spec_fn(f64) -> f64, fin: bool) -> bool { unary_g(args, r, f, |x: f64| s_inv(x), fin) }
/// r = f(1 / x)
pub open spec fn unary_of_rec<N: ToPrimitive + FromPrimitive>(args: Seq<N>, r: Result<N>, f: spec_fn(f64) -> f64) -> bool { unary_g(args, r, |x: f64| f(s_inv(x)), |x: f64| x, true) }

//@ extract prexel/src/ops/mod.rs | fn try_to_float
//@ rewrite num_traits::ToPrimitive ==> ToPrimitive
//@ ret r
//@ rewrite format!($$a) ==> v_fmt()
//@ spec
    ensures match n.s_to_f64() { Some(x) => if finite(x) { r == Ok::<f64, Error>(x) } else { other_err(r) }, None => other_err(r) },
//@ end

//@ repeat S F NAME | Floor floor floor | Ceil ceil ceil | Truncate trunc truncate | Round round round | Sqrt sqrt sqrt | Exp exp exp | Ln ln ln | ToRadians to_radians to_radians | ToDegrees to_degrees to_degrees | Sign signum sign
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod math_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod math_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive + Display + Debug > (
//@ rewrite try_to_float ( $a ) . map ( | n | n . approx ( ) ) ? ==> v_approx(try_to_float($a)?)
//@ ret r
//@ spec
        ensures unary(args@, r, |x: f64| s_@F@(x), false),
//@ end
}
//@ endrepeat
pub struct LogFunction;
impl LogFunction {
//@ extract expanded:prexel | mod ops / mod math_ops / impl Function<N> for LogFunction / fn name
//@ ret r
//@ spec
        ensures r@ == "log"@,
//@ end
//@ extract expanded:prexel | mod ops / mod math_ops / impl Function<N> for LogFunction / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ ret r
//@ spec
        ensures if args@.len() == 1 || args@.len() == 2 { !count_err(r) } else { count_err(r) },
            args@.len() == 1 ==> match args@[0].s_to_f64() { Some(x) => got(r, s_log10(x), true), None => other_err(r) },
            args@.len() == 2 ==> match (args@[0].s_to_f64(), args@[1].s_to_f64()) { (Some(x), Some(b)) => got(r, s_log(x, b), true), _ => other_err(r) },
//@ end
}
pub struct RandFunction;
impl RandFunction {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl Function<N> for RandFunction / fn name
//@ ret r
//@ spec
        ensures r@ == "random"@,
//@ end
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl Function<N> for RandFunction / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive + Display + Debug > (
//@ rewrite random :: < f64 > ( ) ==> random()
//@ rewrite min + ((max - min) * random()) ==> v_fadd(min, v_fmul(v_fsub(max, min), random()))
//@ rewrite random() * max ==> v_fmul(random(), max)
//@ rewrite format!($$a) ==> v_fmt()
//@ ret r
//@ spec
        ensures if args@.len() <= 2 { !count_err(r) } else { count_err(r) },
//@ end
}
//@ repeat S F NAME | Sin sin sin | Cos cos cos | Tan tan tan
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ rewrite method map
//@ ret r
//@ spec
        ensures unary(args@, r, |x: f64| s_@F@(rad(x)), true),
//@ end
}
//@ endrepeat
//@ repeat S F NAME | Csc sin csc | Sec cos sec | Cot tan cot
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ rewrite method map
//@ ret r
//@ spec
        ensures unary_rec(args@, r, |x: f64| s_@F@(rad(x)), true),
//@ end
}
//@ endrepeat
//@ repeat S F NAME | ASin asin asin | ACos acos acos | ASinh asinh asinh | ACosh acosh acosh | ATanh atanh atanh
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ rewrite method map
//@ ret r
//@ spec
        ensures unary(args@, r, |x: f64| deg(s_@F@(x)), true),
//@ end
}
//@ endrepeat
//@ repeat S F NAME | ACsc asin acsc | ASec acos asec | ACot atan acot | ACsch asinh acsch | ASech acosh asech | ACoth atanh acoth
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ rewrite method map
//@ ret r
//@ spec
        ensures unary_of_rec(args@, r, |x: f64| deg(s_@F@(x))),
//@ end
}
//@ endrepeat
//@ repeat S F NAME | Sinh sinh sinh | Cosh cosh cosh | Tanh tanh tanh
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive + Display + Debug > (
//@ rewrite try_to_float ( $a ) . map ( | n | n . approx ( ) ) ? ==> v_approx(try_to_float($a)?)
//@ ret r
//@ spec
        ensures unary(args@, r, |x: f64| s_@F@(x), false),
//@ end
}
//@ endrepeat
//@ repeat S F NAME | Csch sinh csch | Sech cosh sech | Coth tanh coth
pub struct @S@Function;
impl @S@Function {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive + Display + Debug > (
//@ rewrite try_to_float ( $a ) . map ( | n | n . approx ( ) ) ? ==> v_approx(try_to_float($a)?)
//@ ret r
//@ spec
        ensures unary_rec(args@, r, |x: f64| s_@F@(x), false),
//@ end
}
//@ endrepeat
pub struct ATanFunction;
impl ATanFunction {
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for ATanFunction / fn name
//@ ret r
//@ spec
        ensures r@ == "atan"@,
//@ end
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for ATanFunction / fn call
//@ rewrite fn call ( ==> fn call < N : ToPrimitive + FromPrimitive > (
//@ rewrite method map
//@ ret r
//@ spec
        ensures args@.len() == 1 ==> unary(args@, r, |x: f64| deg(s_atan(x)), true),
            args@.len() == 2 ==> !count_err(r) && match (args@[0].s_to_f64(), args@[1].s_to_f64()) {
                (Some(y), Some(x)) => r is Ok ==> (got(r, deg(s_atan2(y, x)), true) || got(r, s_approx(deg(s_atan2(y, x))), true)),
                _ => r is Err },
            args@.len() == 0 || args@.len() > 2 ==> count_err(r),
//@ end
}
