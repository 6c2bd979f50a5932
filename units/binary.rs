// Verus unit: prexel/src/binary/mod.rs (C10).
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
verus! {

//@ rewrite crate::Result ==> Result
//@ rewrite Error::from($a) ==> Error::from_kind($a)
//@ rewrite method ok_or_else
//@ rewrite method and_then
//@ rewrite method map
//@ rewrite . map ( Binary ) ==> . map ( v_binary )

#[derive(Clone, Copy)]
//@ extract prexel/src/error.rs | enum ErrorKind
//@ end
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn from_kind(kind: ErrorKind) -> (r: Error) ensures r.skind() == kind { unimplemented!() }
}
pub type Result<T> = core::result::Result<T, Error>;

//@ extract prexel/src/binary/mod.rs | struct Binary
//@ end

pub fn v_binary(n: i128) -> (r: Binary) ensures r.0 == n { Binary(n) }

// ---------------------------------------------------------------- the core library, as far as it is used
pub assume_specification[i128::checked_shr](a: i128, n: u32) -> (r: Option<i128>)
    ensures r == (if n < 128 { Some((a >> n) as i128) } else { None::<i128> });
pub assume_specification[i128::checked_shl](a: i128, n: u32) -> (r: Option<i128>)
    ensures r == (if n < 128 { Some((a << n) as i128) } else { None::<i128> });

#[verifier::external_body]
pub struct ParseIntError { _p: () }
/// the number a text of digits stands for
pub open spec fn bin_value(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { 2 * bin_value(s.drop_last()) + (if s.last() == '1' { 1int } else { 0int }) }
}
pub open spec fn all_bits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| #![auto] 0 <= i < s.len() ==> s[i] == '0' || s[i] == '1' }
pub open spec fn bin_digits(v: int) -> Seq<char> decreases v {
    if v < 2 { seq![if v == 1 { '1' } else { '0' }] } else { bin_digits(v / 2).push(if v % 2 == 1 { '1' } else { '0' }) }
}
pub uninterp spec fn s_radix(s: Seq<char>, radix: u32) -> core::result::Result<i128, ParseIntError>;
#[verifier::external_body]
pub fn v_from_str_radix(s: &str, radix: u32) -> (r: core::result::Result<i128, ParseIntError>)
    requires 2 <= radix <= 36,
    ensures r == s_radix(s@, radix), (radix == 2 && all_bits(s@)) ==> (r is Ok <==> bin_value(s@) <= i128::MAX) && (r matches Ok(v) ==> v == bin_value(s@)),
{ unimplemented!() }
pub uninterp spec fn s_radix_u(s: Seq<char>, radix: u32) -> core::result::Result<u128, ParseIntError>;
#[verifier::external_body]
pub fn v_from_str_radix_u(s: &str, radix: u32) -> (r: core::result::Result<u128, ParseIntError>)
    requires 2 <= radix <= 36,
    ensures r == s_radix_u(s@, radix), (radix == 2 && all_bits(s@)) ==> (r is Ok <==> bin_value(s@) <= u128::MAX) && (r matches Ok(v) ==> v == bin_value(s@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_from_str(s: &str) -> (r: core::result::Result<i128, ParseIntError>) ensures r == s_radix(s@, 10) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix<'t>(s: &'t str, c: char) -> (r: Option<&'t str>)
    ensures r is Some <==> (s@.len() > 0 && s@[0] == c), r matches Some(t) ==> t@ == s@.drop_first(),
{ unimplemented!() }
/// std::fmt::Formatter without flags: the text written so far
#[verifier::external_body]
pub struct Formatter { _p: () }
impl Formatter { pub uninterp spec fn out(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct FmtError { _p: () }
#[verifier::external_body]
pub fn v_write(f: &mut Formatter, spec: &str, n: i128) -> (r: core::result::Result<(), FmtError>)
    ensures (r is Ok && n >= 0 && spec@ == "{:b}"@) ==> final(f).out() == old(f).out() + bin_digits(n as int),
{ unimplemented!() }

// ---------------------------------------------------------------- literals
impl Binary {
//@ extract prexel/src/binary/mod.rs | impl Zero for Binary / fn zero
//@ ret r
//@ spec
        ensures r.0 == 0,
//@ end
//@ extract prexel/src/binary/mod.rs | impl Zero for Binary / fn is_zero
//@ ret r
//@ spec
        ensures r == (self.0 == 0),
//@ end
//@ extract prexel/src/binary/mod.rs | impl FromStr for Binary / fn from_str
//@ rewrite Self::Err ==> ParseIntError
//@ rewrite -> Result< ==> -> core::result::Result<
//@ rewrite s.strip_prefix($a) ==> v_strip_prefix(s, $a)
//@ rewrite i128::from_str_radix($a, $b) ==> v_from_str_radix($a, $b)
//@ rewrite u128::from_str_radix($a, $b) ==> v_from_str_radix_u($a, $b)
//@ rewrite i128::from_str($a) ==> v_from_str($a)
//@ ret r
//@ spec
        ensures
            (s@.len() > 0 && s@[0] == 'b') ==> r == (match s_radix(s@.drop_first(), 2) { Ok(v) => Ok::<Binary, ParseIntError>(Binary(v)), Err(e) => Err(e) }),
            !(s@.len() > 0 && s@[0] == 'b') ==> r == (match s_radix(s@, 10) { Ok(v) => Ok::<Binary, ParseIntError>(Binary(v)), Err(e) => Err(e) }),
            (s@.len() > 0 && s@[0] == 'b' && all_bits(s@.drop_first()) && bin_value(s@.drop_first()) <= i128::MAX) ==> (r matches Ok(b) && b.0 == bin_value(s@.drop_first())),
            (s@.len() > 0 && s@[0] == 'b' && all_bits(s@.drop_first()) && bin_value(s@.drop_first()) > i128::MAX) ==> r is Err,
//@ end
//@ extract prexel/src/binary/mod.rs | impl Display for Binary / fn fmt
//@ rewrite std::fmt::Formatter ==> Formatter
//@ rewrite std::fmt::Result ==> core::result::Result<(), FmtError>
//@ rewrite write!(f, $a, $b) ==> v_write(f, $a, $b)
//@ ret r
//@ spec
        ensures (r is Ok && self.0 >= 0) ==> final(f).out() == old(f).out() + bin_digits(self.0 as int),
//@ end
}
pub proof fn lemma_digits(v: int)
    requires v >= 0,
    ensures all_bits(bin_digits(v)), bin_value(bin_digits(v)) == v,
    decreases v,
{
    reveal_with_fuel(bin_value, 3);
    if v >= 2 {
        lemma_digits(v / 2);
        let d = bin_digits(v);
        assert(d.drop_last() =~= bin_digits(v / 2));
    } else {
        let d = bin_digits(v);
        assert(d.drop_last() =~= Seq::<char>::empty());
    }
}
/// C10, round trip: what Display writes for a non-negative value, after a `b`, parses to that value
pub fn theorem_c10_round_trip(b: Binary, f: &mut Formatter, text: &str)
    requires b.0 >= 0, old(f).out() == Seq::<char>::empty(),
{
    let r = b.fmt(f);
    if r.is_ok() {
        proof { lemma_digits(b.0 as int); }
        assert(Seq::<char>::empty() + bin_digits(b.0 as int) =~= bin_digits(b.0 as int));
        let p = Binary::from_str(text);
        assert(text@ == seq!['b'] + f.out() ==> (p matches Ok(q) && q.0 == b.0)) by {
            assert((seq!['b'] + f.out()).drop_first() =~= f.out());
        }
    }
}

// ---------------------------------------------------------------- operators
pub open spec fn bit(c: bool) -> int { if c { 1 } else { 0 } }
pub struct NotFunction;
impl NotFunction {
//@ extract prexel/src/binary/mod.rs | mod math / impl UnaryFunction<Binary> for NotFunction / fn name
//@ ret r
//@ spec
        ensures r@ == "~"@,
//@ end
//@ extract prexel/src/binary/mod.rs | mod math / impl UnaryFunction<Binary> for NotFunction / fn call
//@ ret r
//@ spec
        ensures r matches Ok(x) && x.0 == !value.0 && x.0 == -value.0 - 1,
//@ start
        proof { let v = value.0; assert(!v == -1i128 - v && !v == v ^ -1i128 && !v == -1i128 ^ v) by(bit_vector); }
//@ end
}
//@ repeat S NAME E | And & left.0&right.0 | Xor ^ left.0^right.0
pub struct @S@Function;
impl @S@Function {
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn call
//@ ret r
//@ spec
        ensures r matches Ok(x) && x.0 == (@E@),
//@ start
        proof {
            let (a, b) = (left.0, right.0);
            assert(a & b == b & a && a ^ b == b ^ a && a & b == !(!a | !b) && a ^ b == (a | b) & !(a & b) && a ^ b == (a & !b) | (!a & b)) by(bit_vector);
        }
//@ end
}
//@ endrepeat
pub struct OrFunction;
impl OrFunction {
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for OrFunction / fn name
//@ ret r
//@ spec
        ensures r@ == "|"@,
//@ end
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for OrFunction / fn call
//@ ret r
//@ spec
        ensures r matches Ok(x) && x.0 == (left.0 | right.0),
//@ start
        proof {
            let (a, b) = (left.0, right.0);
            assert(a | b == b | a && a | b == !(!a & !b)) by(bit_vector);
        }
//@ end
}
//@ repeat S NAME E | Eq == left.0==right.0 | Ne != left.0!=right.0 | Gt > left.0>right.0 | Lt < left.0<right.0 | Gte >= left.0>=right.0 | Lte <= left.0<=right.0
pub struct @S@Function;
impl @S@Function {
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn call
//@ ret r
//@ spec
        ensures r matches Ok(x) && x.0 == bit(@E@),
//@ end
}
//@ endrepeat
//@ repeat S NAME OP | Shr >> >> | Shl << <<
pub struct @S@Function;
impl @S@Function {
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn name
//@ ret r
//@ spec
        ensures r@ == "@NAME@"@,
//@ end
//@ extract prexel/src/binary/mod.rs | mod math / impl BinaryFunction<Binary> for @S@Function / fn call
//@ ret r
//@ spec
        ensures
            0 <= right.0 <= 127 ==> (r matches Ok(x) && x.0 == (left.0 @OP@ (right.0 as u32)) as i128),
            !(0 <= right.0 <= 127) ==> r is Err,
//@ end
}
//@ endrepeat

fn main() {}
} // verus!
