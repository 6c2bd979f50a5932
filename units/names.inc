// The functions and constants every context offers, by name (C24). A name is told apart from every other by a number
// computed from its characters, ignoring case.
pub uninterp spec fn s_opn<N, F>(f: F, a: Seq<N>) -> Option<N>;
pub trait CheckedNum: FromPrimitive {}
pub trait UncheckedNum: FromPrimitive {}
pub trait Float: Sized {}
pub trait FromPrimitive: Sized { spec fn s_from_f64(n: f64) -> Option<Self>; fn from_f64(n: f64) -> (r: Option<Self>) ensures r == Self::s_from_f64(n); }
pub uninterp spec fn s_pi() -> f64;
pub uninterp spec fn s_e() -> f64;
#[verifier::external_body]
pub fn v_pi() -> (r: f64) ensures r == s_pi() { unimplemented!() }
#[verifier::external_body]
pub fn v_e() -> (r: f64) ensures r == s_e() { unimplemented!() }
#[verifier::external_body]
pub struct Decimal { p: () }
pub mod consts { use super::*;
//@ repeat C | PI | E
    pub uninterp spec fn s_@C@() -> Decimal;
    #[verifier::external_body]
    pub exec const @C@: Decimal ensures @C@ == s_@C@() { Decimal { p: () } }
//@ endrepeat
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Complex<T> { p: core::marker::PhantomData<T> }
impl<T> Complex<T> {
    pub uninterp spec fn s_from_f64(n: f64) -> Option<Self>;
    #[verifier::external_body]
    pub fn from_f64(n: f64) -> (r: Option<Self>) ensures r == Self::s_from_f64(n) { unimplemented!() }
    pub uninterp spec fn s_i() -> Self;
    #[verifier::external_body]
    pub fn i() -> (r: Self) ensures r == Self::s_i() { unimplemented!() }
}
#[verifier::external_body]
pub struct Binary { p: () }
// precedence, associativity and notation are the subject of C23, the operations of C08, C09, C10, C12, C20: symbols here
pub uninterp spec fn s_op1<N, F>(f: F, a: N) -> Option<N>;
pub uninterp spec fn s_op2<N, F>(f: F, a: N, b: N) -> Option<N>;
pub uninterp spec fn s_opprec<F>(f: F) -> Precedence;
pub uninterp spec fn s_opassoc<F>(f: F) -> Associativity;
pub uninterp spec fn s_opnot<F>(f: F) -> Notation;
pub open spec fn xeq<A>(a: Seq<A>, b: Seq<A>) -> bool { a =~= b }
pub open spec fn al1(a: Seq<char>) -> Seq<Seq<char>> { seq![a] }
pub open spec fn al2(a: Seq<char>, b: Seq<char>) -> Seq<Seq<char>> { seq![a, b] }
/// unsizing keeps what the function is
pub broadcast axiom fn ax_dyn_fun<'a, N, F: Function<N> + 'a>(f: F, a: Seq<N>)
    ensures #[trigger] dyn_fun::<'a, N, F>(f).s_call(a) == f.s_call(a);
pub open spec fn lkey(l: Seq<Seq<char>>) -> int decreases l.len() {
    if l.len() == 0 { 0 } else { lkey(l.drop_last()) * 128 + (if l.last().len() > 0 { alow2(l.last()[0]) } else { 0 }) }
}
pub open spec fn alow2(c: char) -> int { if 'A' <= c && c <= 'Z' { c as int + 32 } else { c as int } }
pub open spec fn ckey(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { ckey(s.drop_last()) * 128 + alow2(s.last()) }
}
pub proof fn lemma_key(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> '!' <= #[trigger] s[i] <= '~',
    ensures lkey(lo(s)) == ckey(s),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_lo(s);
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies '!' <= #[trigger] t[i] <= '~' by { assert(t[i] == s[i]); }
        if t.len() > 0 { lemma_lo(t); }
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] lo(s).drop_last()[i] == lo(t)[i] by { assert(lo(s)[i] == seq![alow(s[i])]); assert(lo(t)[i] == seq![alow(t[i])]); }
        assert(lo(t).len() == t.len());
        assert(lo(s).drop_last() =~= lo(t));
        lemma_key(t);
        assert(lo(s).last() == seq![alow(s.last())]);
        assert(alow2(alow(s.last())) == alow2(s.last()));
    } else { assert(lo(s).len() == 0); }
}
//@ repeat ID NAME CODE CS | max max 1798392 'm','a','x' | min min 1799406 'm','i','n' | sqrt sqrt 243038580 's','q','r','t' | ln ln 13934 'l','n' | log log 1783783 'l','o','g' | exp exp 1670256 'e','x','p' | floor floor 27608741874 'f','l','o','o','r' | ceil ceil 209286380 'c','e','i','l' | round round 30836356964 'r','o','u','n','d' | sign sign 242906094 's','i','g','n' | random random 3943280752621 'r','a','n','d','o','m' | to_radians to_radians 1077963534196201256819 't','o','_','r','a','d','i','a','n','s' | to_degrees to_degrees 1077963472761813299955 't','o','_','d','e','g','r','e','e','s' | sin sin 1897710 's','i','n' | cos cos 1636339 'c','o','s' | tan tan 1913070 't','a','n' | csc csc 1636835 'c','s','c' | sec sec 1897187 's','e','c' | cot cot 1636340 'c','o','t' | asin asin 205321454 'a','s','i','n' | acos acos 205060083 'a','c','o','s' | atan atan 205336814 'a','t','a','n' | acsc acsc 205060579 'a','c','s','c' | asec asec 205320931 'a','s','e','c' | acot acot 205060084 'a','c','o','t' | sinh sinh 242906984 's','i','n','h' | cosh cosh 209451496 'c','o','s','h' | tanh tanh 244873064 't','a','n','h' | csch csch 209514984 'c','s','c','h' | sech sech 242840040 's','e','c','h' | coth coth 209451624 'c','o','t','h' | asinh asinh 26281146216 'a','s','i','n','h' | acosh acosh 26247690728 'a','c','o','s','h' | atanh atanh 26283112296 'a','t','a','n','h' | acsch acsch 26247754216 'a','c','s','c','h' | asech asech 26281079272 'a','s','e','c','h' | acoth acoth 26247690856 'a','c','o','t','h' | abs abs 1601907 'a','b','s' | sum sum 1899245 's','u','m' | product product 496528227398132 'p','r','o','d','u','c','t' | avg avg 1604455 'a','v','g' | cbrt cbrt 209238388 'c','b','r','t' | truncate truncate 65807621725649509 't','r','u','n','c','a','t','e' | c_PI PI 14441 'P','I' | c_E E 101 'E' | c_i i 105 'i' | plus + 43 '+' | minus - 45 '-' | star * 42 '*' | slash / 47 '/' | caret ^ 94 '^' | bang ! 33 '!' | mod mod 1800164 'm','o','d' | tilde ~ 126 '~' | amp & 38 '&' | eqeq == 7869 '=','=' | bangeq != 4285 '!','=' | rang > 62 '>' | lang < 60 '<' | rangeq >= 7997 '>','=' | langeq <= 7741 '<','=' | rang2 >> 7998 '>','>' | lang2 << 7740 '<','<' | w_not not 1816564 'n','o','t' | w_and and 1603428 'a','n','d' | w_or or 14322 'o','r' | w_xor xor 1980402 'x','o','r' | w_eq eq 13041 'e','q' | w_equal equal 27350888684 'e','q','u','a','l' | w_ne ne 14181 'n','e' | w_no_equal no_equal 62415969565110508 'n','o','_','e','q','u','a','l' | w_gt gt 13300 'g','t' | w_lt lt 13940 'l','t' | w_gte gte 1702501 'g','t','e' | w_lte lte 1784421 'l','t','e' | w_shr shr 1897586 's','h','r' | w_shl shl 1897580 's','h','l'
pub proof fn k_@ID@()
    ensures lkey(lo("@NAME@"@)) == @CODE@, s_valid("@NAME@"@),
{
    reveal_strlit("@NAME@");
    assert("@NAME@"@ =~= seq![@CS@]);
    lemma_lo("@NAME@"@); lemma_key("@NAME@"@);
    assert(ckey(seq![@CS@]) == @CODE@) by (compute);
}
//@ endrepeat
pub proof fn k_pipe()
    ensures lkey(lo("|"@)) == 124, s_valid("|"@),
{
    reveal_strlit("|");
    assert("|"@ =~= seq!['|']);
    lemma_lo("|"@); lemma_key("|"@);
    assert(ckey(seq!['|']) == 124) by (compute);
}
pub open spec fn one_name(n: Seq<char>) -> ISet<Seq<Seq<char>>> { ISet::<Seq<Seq<char>>>::empty().insert(lo(n)) }
pub proof fn lemma_names1()
    ensures forall|n: Seq<char>| #[trigger] names(n, None) == one_name(n)
{ assert forall|n: Seq<char>| #[trigger] names(n, None) == one_name(n) by { assert(names(n, None) =~= one_name(n)); } }
/// every name is registered under one key
pub proof fn lemma_add1<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, v: V)
    ensures add_all(m, names(n, None), v) == m.insert(lo(n), v), m.dom().disjoint(names(n, None)) <==> !m.dom().contains(lo(n)),
{
    lemma_names1();
    assert(add_all(m, names(n, None), v) =~= m.insert(lo(n), v));
    assert(names(n, None).contains(lo(n)));
    if !m.dom().contains(lo(n)) { assert(m.dom().disjoint(names(n, None))); }
    else { assert(!m.dom().disjoint(names(n, None))); }
}
// ---------------------------------------------------------------- the functions, by module
pub mod ops { use super::*;
pub mod math { use super::*;
//@ repeat S NAME | Max max | Min min | Sqrt sqrt | Ln ln | Log log | Exp exp | Floor floor | Ceil ceil | Truncate truncate | Round round | Sign sign | Rand random | ToRadians to_radians | ToDegrees to_degrees
pub struct @S@Function;
impl<N> Function<N> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<N>) -> Option<N> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[N]) -> Result<N> { unimplemented!() }
//@ fnset expanded:prexel | mod ops / mod math_ops / impl Function<N> for @S@Function | name call description
//@ extract expanded:prexel | mod ops / mod math_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Sin sin | Cos cos | Tan tan | Csc csc | Sec sec | Cot cot | ASin asin | ACos acos | ATan atan | ACsc acsc | ASec asec | ACot acot | Sinh sinh | Cosh cosh | Tanh tanh | Csch csch | Sech sech | Coth coth | ASinh asinh | ACosh acosh | ATanh atanh | ACsch acsch | ASech asech | ACoth acoth
pub struct @S@Function;
impl<N> Function<N> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<N>) -> Option<N> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[N]) -> Result<N> { unimplemented!() }
//@ fnset expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function | name call description
//@ extract expanded:prexel | mod ops / mod trig_ops / impl Function<N> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Pow ^
pub struct @S@Operator;
impl<N> BinaryFunction<N> for @S@Operator {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod math_ops / impl BinaryFunction<N> for @S@Operator | name precedence associativity call description
//@ extract expanded:prexel | mod ops / mod math_ops / impl BinaryFunction<N> for @S@Operator / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | UnaryPlus + | Factorial !
pub struct @S@;
impl<N> UnaryFunction<N> for @S@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { s_opnot(*self) }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn notation(&self) -> Notation { unimplemented!() }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod math_ops / impl UnaryFunction<N> for @S@ | name notation call description
//@ extract expanded:prexel | mod ops / mod math_ops / impl UnaryFunction<N> for @S@ / fn name
//@ ret r
//@ end
}
//@ endrepeat
}
pub mod checked { use super::*;
//@ repeat S NAME | Abs abs | Sum sum | Prod product | Avg avg
pub struct @S@Function;
impl<N> Function<N> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<N>) -> Option<N> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[N]) -> Result<N> { unimplemented!() }
//@ fnset expanded:prexel | mod ops / mod checked / impl Function<N> for @S@Function | name call description
//@ extract expanded:prexel | mod ops / mod checked / impl Function<N> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Add + | Sub - | Mul * | Div / | Mod mod
pub struct @S@Operator;
impl<N> BinaryFunction<N> for @S@Operator {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod checked / impl BinaryFunction<N> for @S@Operator | name precedence associativity call description
//@ extract expanded:prexel | mod ops / mod checked / impl BinaryFunction<N> for @S@Operator / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | UnaryMinus - | Factorial !
pub struct @S@;
impl<N> UnaryFunction<N> for @S@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { s_opnot(*self) }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn notation(&self) -> Notation { unimplemented!() }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod checked / impl UnaryFunction<N> for @S@ | name notation call description
//@ extract expanded:prexel | mod ops / mod checked / impl UnaryFunction<N> for @S@ / fn name
//@ ret r
//@ end
}
//@ endrepeat
}
pub mod unchecked { use super::*;
//@ repeat S NAME | Abs abs | Sum sum | Prod product | Avg avg
pub struct @S@Function;
impl<N> Function<N> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<N>) -> Option<N> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[N]) -> Result<N> { unimplemented!() }
//@ fnset expanded:prexel | mod ops / mod unchecked / impl Function<N> for @S@Function | name call description
//@ extract expanded:prexel | mod ops / mod unchecked / impl Function<N> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Add + | Sub - | Mul * | Div / | Mod mod
pub struct @S@Operator;
impl<N> BinaryFunction<N> for @S@Operator {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: N, b: N) -> Option<N> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: N, right: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod unchecked / impl BinaryFunction<N> for @S@Operator | name precedence associativity call description
//@ extract expanded:prexel | mod ops / mod unchecked / impl BinaryFunction<N> for @S@Operator / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | UnaryMinus -
pub struct @S@;
impl<N> UnaryFunction<N> for @S@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { s_opnot(*self) }
    open spec fn s_call(&self, a: N) -> Option<N> { s_op1(*self, a) }
    #[verifier::external_body] fn notation(&self) -> Notation { unimplemented!() }
    #[verifier::external_body] fn call(&self, value: N) -> Result<N> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod ops / mod unchecked / impl UnaryFunction<N> for @S@ | name notation call description
//@ extract expanded:prexel | mod ops / mod unchecked / impl UnaryFunction<N> for @S@ / fn name
//@ ret r
//@ end
}
//@ endrepeat
}
}
pub mod decimal { use super::*;
pub mod ops { use super::*;
//@ repeat S NAME | Sum sum | Avg avg | Prod product | Cbrt cbrt | Sqrt sqrt | Ln ln | Log log | Ceil ceil | Floor floor | Truncate truncate | Round round | Exp exp | ToRadians to_radians | ToDegrees to_degrees
pub struct @S@Function;
impl Function<Decimal> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<Decimal>) -> Option<Decimal> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[Decimal]) -> Result<Decimal> { unimplemented!() }
//@ fnset expanded:prexel | mod decimal / mod math_ops / impl Function<Decimal> for @S@Function | name call description
//@ extract expanded:prexel | mod decimal / mod math_ops / impl Function<Decimal> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Sin sin | Cos cos | Tan tan | Csc csc | Sec sec | Cot cot | ASin asin | ACos acos | ATan atan | ACsc acsc | ASec asec | ACot acot | Sinh sinh | Cosh cosh | Tanh tanh | Csch csch | Sech sech | Coth coth | ASinh asinh | ACosh acosh | ATanh atanh | ACsch acsch | ASech asech | ACoth acoth
pub struct @S@Function;
impl Function<Decimal> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<Decimal>) -> Option<Decimal> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[Decimal]) -> Result<Decimal> { unimplemented!() }
//@ fnset expanded:prexel | mod decimal / mod trig_ops / impl Function<Decimal> for @S@Function | name call description
//@ extract expanded:prexel | mod decimal / mod trig_ops / impl Function<Decimal> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Add + | Sub - | Mul * | Div / | Mod mod | Pow ^
pub struct @S@Operator;
impl BinaryFunction<Decimal> for @S@Operator {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: Decimal, b: Decimal) -> Option<Decimal> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: Decimal, right: Decimal) -> Result<Decimal> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod decimal / mod math_ops / impl BinaryFunction<Decimal> for @S@Operator | name precedence associativity call description
//@ extract expanded:prexel | mod decimal / mod math_ops / impl BinaryFunction<Decimal> for @S@Operator / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | UnaryMinus - | Factorial !
pub struct @S@;
impl UnaryFunction<Decimal> for @S@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_notation(&self) -> Notation { s_opnot(*self) }
    open spec fn s_call(&self, a: Decimal) -> Option<Decimal> { s_op1(*self, a) }
    #[verifier::external_body] fn notation(&self) -> Notation { unimplemented!() }
    #[verifier::external_body] fn call(&self, value: Decimal) -> Result<Decimal> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod decimal / mod math_ops / impl UnaryFunction<Decimal> for @S@ | name notation call description
//@ extract expanded:prexel | mod decimal / mod math_ops / impl UnaryFunction<Decimal> for @S@ / fn name
//@ ret r
//@ end
}
//@ endrepeat
}
}
pub mod complex { use super::*;
pub mod ops { use super::*;
//@ repeat S NAME | Sqrt sqrt | Ln ln | Log log | Rand random | Exp exp | Sin sin | Cos cos | Tan tan | Csc csc | Sec sec | Cot cot | ASin asin | ACos acos | ATan atan | ACsc acsc | ASec asec | ACot acot | Sinh sinh | Cosh cosh | Tanh tanh | Csch csch | Sech sech | Coth coth | ASinh asinh | ACosh acosh | ATanh atanh | ACsch acsch | ASech asech | ACoth acoth
pub struct @S@Function;
impl<T> Function<Complex<T>> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_call(&self, a: Seq<Complex<T>>) -> Option<Complex<T>> { s_opn(*self, a) }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
    #[verifier::external_body] fn call(&self, args: &[Complex<T>]) -> Result<Complex<T>> { unimplemented!() }
//@ fnset expanded:prexel | mod complex / mod ops / impl Function<Complex<T>> for @S@Function | name call description
//@ extract expanded:prexel | mod complex / mod ops / impl Function<Complex<T>> for @S@Function / fn name
//@ ret r
//@ end
}
//@ endrepeat
//@ repeat S NAME | Pow ^
pub struct @S@Operator;
impl<T> BinaryFunction<Complex<T>> for @S@Operator {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { None }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: Complex<T>, b: Complex<T>) -> Option<Complex<T>> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: Complex<T>, right: Complex<T>) -> Result<Complex<T>> { unimplemented!() }
    #[verifier::external_body] fn aliases(&self) -> Option<&[&str]> { None }
//@ fnset expanded:prexel | mod complex / mod ops / impl BinaryFunction<Complex<T>> for @S@Operator | name precedence associativity call description
//@ extract expanded:prexel | mod complex / mod ops / impl BinaryFunction<Complex<T>> for @S@Operator / fn name
//@ ret r
//@ end
}
//@ endrepeat
}
}
pub mod binary { use super::*;
pub mod math { use super::*;
//@ repeat S NAME AL | And & al1("and"@) | Xor ^ al1("xor"@) | Eq == al2("eq"@,"equal"@) | Ne != al2("ne"@,"no_equal"@) | Gt > al1("gt"@) | Lt < al1("lt"@) | Gte >= al1("gte"@) | Lte <= al1("lte"@) | Shr >> al1("shr"@) | Shl << al1("shl"@)
pub struct @S@Function;
impl BinaryFunction<Binary> for @S@Function {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { Some(@AL@) }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: Binary, b: Binary) -> Option<Binary> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: Binary, right: Binary) -> Result<Binary> { unimplemented!() }
//@ fnset expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for @S@Function | name aliases precedence associativity call description
//@ extract expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for @S@Function / fn name
//@ ret r
//@ end
//@ extract expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for @S@Function / fn aliases
//@ ret r
//@ bodyrewrite Some ( & [ $$a ] ) ==> { let v_a : & [ & str ] = & [ $$a ] ; proof { assert ( xeq ( v_a @ . map_values ( | s : & str | s @ ) , @AL@ ) ) ; } Some ( v_a ) }
//@ end
}
//@ endrepeat
pub struct OrFunction;
impl BinaryFunction<Binary> for OrFunction {
    open spec fn s_name(&self) -> Seq<char> { "|"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { Some(al1("or"@)) }
    open spec fn s_prec(&self) -> Precedence { s_opprec(*self) }
    open spec fn s_assoc(&self) -> Associativity { s_opassoc(*self) }
    open spec fn s_call(&self, a: Binary, b: Binary) -> Option<Binary> { s_op2(*self, a, b) }
    #[verifier::external_body] fn precedence(&self) -> Precedence { unimplemented!() }
    #[verifier::external_body] fn associativity(&self) -> Associativity { unimplemented!() }
    #[verifier::external_body] fn call(&self, left: Binary, right: Binary) -> Result<Binary> { unimplemented!() }
//@ fnset expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for OrFunction | name aliases precedence associativity call description
//@ extract expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for OrFunction / fn name
//@ ret r
//@ end
//@ extract expanded:prexel | mod binary / mod math / impl BinaryFunction<Binary> for OrFunction / fn aliases
//@ ret r
//@ bodyrewrite Some ( & [ $$a ] ) ==> { let v_a : & [ & str ] = & [ $$a ] ; proof { assert ( xeq ( v_a @ . map_values ( | s : & str | s @ ) , al1("or"@) ) ) ; } Some ( v_a ) }
//@ end
}
//@ repeat S NAME AL | NotFunction ~ al1("not"@)
pub struct @S@;
impl UnaryFunction<Binary> for @S@ {
    open spec fn s_name(&self) -> Seq<char> { "@NAME@"@ }
    open spec fn s_aliases(&self) -> Option<Seq<Seq<char>>> { Some(@AL@) }
    open spec fn s_notation(&self) -> Notation { s_opnot(*self) }
    open spec fn s_call(&self, a: Binary) -> Option<Binary> { s_op1(*self, a) }
    #[verifier::external_body] fn notation(&self) -> Notation { unimplemented!() }
    #[verifier::external_body] fn call(&self, value: Binary) -> Result<Binary> { unimplemented!() }
//@ fnset expanded:prexel | mod binary / mod math / impl UnaryFunction<Binary> for @S@ | name aliases notation call description
//@ extract expanded:prexel | mod binary / mod math / impl UnaryFunction<Binary> for @S@ / fn name
//@ ret r
//@ end
//@ extract expanded:prexel | mod binary / mod math / impl UnaryFunction<Binary> for @S@ / fn aliases
//@ ret r
//@ bodyrewrite Some ( & [ $$a ] ) ==> { let v_a : & [ & str ] = & [ $$a ] ; proof { assert ( xeq ( v_a @ . map_values ( | s : & str | s @ ) , @AL@ ) ) ; } Some ( v_a ) }
//@ end
}
//@ endrepeat
}
}
// ---------------------------------------------------------------- the contexts
pub broadcast proof fn ax_names1<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, v: V)
    ensures #[trigger] add_all(m, names(n, None), v) == m.insert(lo(n), v)
{ lemma_add1(m, n, v); }
pub broadcast proof fn ax_names2<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>)
    ensures #[trigger] m.dom().disjoint(names(n, None)) <==> !m.dom().contains(lo(n))
{ lemma_names1(); assert(names(n, None).contains(lo(n))); if !m.dom().contains(lo(n)) { assert(m.dom().disjoint(names(n, None))); } else { assert(!m.dom().disjoint(names(n, None))); } }
pub broadcast proof fn ax_names3<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, a: Seq<char>, v: V)
    ensures #[trigger] add_all(m, names(n, Some(al1(a))), v) == m.insert(lo(n), v).insert(lo(a), v)
{ let s = al1(a); assert(s[0] == a); assert(add_all(m, names(n, Some(s)), v) =~= m.insert(lo(n), v).insert(lo(a), v)); }
pub broadcast proof fn ax_names4<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, a: Seq<char>)
    ensures #[trigger] m.dom().disjoint(names(n, Some(al1(a)))) <==> !m.dom().contains(lo(n)) && !m.dom().contains(lo(a))
{ let s = al1(a); assert(s[0] == a); assert(names(n, Some(s)).contains(lo(n))); assert(names(n, Some(s)).contains(lo(a)));
  if !m.dom().contains(lo(n)) && !m.dom().contains(lo(a)) { assert(m.dom().disjoint(names(n, Some(s)))); } }
pub broadcast proof fn ax_names5<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, a: Seq<char>, b: Seq<char>, v: V)
    ensures #[trigger] add_all(m, names(n, Some(al2(a, b))), v) == m.insert(lo(n), v).insert(lo(a), v).insert(lo(b), v)
{ let s = al2(a, b); assert(s[0] == a); assert(s[1] == b); assert(add_all(m, names(n, Some(s)), v) =~= m.insert(lo(n), v).insert(lo(a), v).insert(lo(b), v)); }
pub broadcast proof fn ax_names6<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, n: Seq<char>, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] m.dom().disjoint(names(n, Some(al2(a, b)))) <==> !m.dom().contains(lo(n)) && !m.dom().contains(lo(a)) && !m.dom().contains(lo(b))
{ let s = al2(a, b); assert(s[0] == a); assert(s[1] == b); assert(names(n, Some(s)).contains(lo(n))); assert(names(n, Some(s)).contains(lo(a))); assert(names(n, Some(s)).contains(lo(b)));
  if !m.dom().contains(lo(n)) && !m.dom().contains(lo(a)) && !m.dom().contains(lo(b)) { assert(m.dom().disjoint(names(n, Some(s)))); } }
//@ rewrite std :: f64 :: consts :: PI ==> v_pi ( )
//@ rewrite std :: f64 :: consts :: E ==> v_e ( )
pub mod ctx_checked { use super::*; use super::ops::math::*;
/// the names of the functions, of the operators and of the constants
pub open spec fn f_names(k: Seq<Seq<char>>) -> bool { k == lo("abs"@) || k == lo("sum"@) || k == lo("product"@) || k == lo("avg"@) || k == lo("max"@) || k == lo("min"@) || k == lo("sqrt"@) || k == lo("ln"@) || k == lo("log"@) || k == lo("exp"@) || k == lo("floor"@) || k == lo("ceil"@) || k == lo("truncate"@) || k == lo("round"@) || k == lo("sign"@) || k == lo("random"@) || k == lo("to_radians"@) || k == lo("to_degrees"@) || k == lo("sin"@) || k == lo("cos"@) || k == lo("tan"@) || k == lo("csc"@) || k == lo("sec"@) || k == lo("cot"@) || k == lo("asin"@) || k == lo("acos"@) || k == lo("atan"@) || k == lo("acsc"@) || k == lo("asec"@) || k == lo("acot"@) || k == lo("sinh"@) || k == lo("cosh"@) || k == lo("tanh"@) || k == lo("csch"@) || k == lo("sech"@) || k == lo("coth"@) || k == lo("asinh"@) || k == lo("acosh"@) || k == lo("atanh"@) || k == lo("acsch"@) || k == lo("asech"@) || k == lo("acoth"@) }
pub open spec fn b_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("*"@) || k == lo("/"@) || k == lo("mod"@) || k == lo("^"@) }
pub open spec fn u_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("!"@) }
pub open spec fn c_names(k: Seq<Seq<char>>) -> bool { k == lo("PI"@) || k == lo("E"@) }
pub open spec fn offers<'a, N: CheckedNum>(r: DefaultContext<'a, N>) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.functions.m().dom().contains(k) <==> f_names(k)
    &&& r.functions.m()[lo("abs"@)] == dyn_fun::<'a, N, crate::ops::checked::AbsFunction>(crate::ops::checked::AbsFunction)
    &&& r.functions.m()[lo("sum"@)] == dyn_fun::<'a, N, crate::ops::checked::SumFunction>(crate::ops::checked::SumFunction)
    &&& r.functions.m()[lo("product"@)] == dyn_fun::<'a, N, crate::ops::checked::ProdFunction>(crate::ops::checked::ProdFunction)
    &&& r.functions.m()[lo("avg"@)] == dyn_fun::<'a, N, crate::ops::checked::AvgFunction>(crate::ops::checked::AvgFunction)
    &&& r.functions.m()[lo("max"@)] == dyn_fun::<'a, N, crate::ops::math::MaxFunction>(crate::ops::math::MaxFunction)
    &&& r.functions.m()[lo("min"@)] == dyn_fun::<'a, N, crate::ops::math::MinFunction>(crate::ops::math::MinFunction)
    &&& r.functions.m()[lo("sqrt"@)] == dyn_fun::<'a, N, crate::ops::math::SqrtFunction>(crate::ops::math::SqrtFunction)
    &&& r.functions.m()[lo("ln"@)] == dyn_fun::<'a, N, crate::ops::math::LnFunction>(crate::ops::math::LnFunction)
    &&& r.functions.m()[lo("log"@)] == dyn_fun::<'a, N, crate::ops::math::LogFunction>(crate::ops::math::LogFunction)
    &&& r.functions.m()[lo("exp"@)] == dyn_fun::<'a, N, crate::ops::math::ExpFunction>(crate::ops::math::ExpFunction)
    &&& r.functions.m()[lo("floor"@)] == dyn_fun::<'a, N, crate::ops::math::FloorFunction>(crate::ops::math::FloorFunction)
    &&& r.functions.m()[lo("ceil"@)] == dyn_fun::<'a, N, crate::ops::math::CeilFunction>(crate::ops::math::CeilFunction)
    &&& r.functions.m()[lo("truncate"@)] == dyn_fun::<'a, N, crate::ops::math::TruncateFunction>(crate::ops::math::TruncateFunction)
    &&& r.functions.m()[lo("round"@)] == dyn_fun::<'a, N, crate::ops::math::RoundFunction>(crate::ops::math::RoundFunction)
    &&& r.functions.m()[lo("sign"@)] == dyn_fun::<'a, N, crate::ops::math::SignFunction>(crate::ops::math::SignFunction)
    &&& r.functions.m()[lo("random"@)] == dyn_fun::<'a, N, crate::ops::math::RandFunction>(crate::ops::math::RandFunction)
    &&& r.functions.m()[lo("to_radians"@)] == dyn_fun::<'a, N, crate::ops::math::ToRadiansFunction>(crate::ops::math::ToRadiansFunction)
    &&& r.functions.m()[lo("to_degrees"@)] == dyn_fun::<'a, N, crate::ops::math::ToDegreesFunction>(crate::ops::math::ToDegreesFunction)
    &&& r.functions.m()[lo("sin"@)] == dyn_fun::<'a, N, crate::ops::math::SinFunction>(crate::ops::math::SinFunction)
    &&& r.functions.m()[lo("cos"@)] == dyn_fun::<'a, N, crate::ops::math::CosFunction>(crate::ops::math::CosFunction)
    &&& r.functions.m()[lo("tan"@)] == dyn_fun::<'a, N, crate::ops::math::TanFunction>(crate::ops::math::TanFunction)
    &&& r.functions.m()[lo("csc"@)] == dyn_fun::<'a, N, crate::ops::math::CscFunction>(crate::ops::math::CscFunction)
    &&& r.functions.m()[lo("sec"@)] == dyn_fun::<'a, N, crate::ops::math::SecFunction>(crate::ops::math::SecFunction)
    &&& r.functions.m()[lo("cot"@)] == dyn_fun::<'a, N, crate::ops::math::CotFunction>(crate::ops::math::CotFunction)
    &&& r.functions.m()[lo("asin"@)] == dyn_fun::<'a, N, crate::ops::math::ASinFunction>(crate::ops::math::ASinFunction)
    &&& r.functions.m()[lo("acos"@)] == dyn_fun::<'a, N, crate::ops::math::ACosFunction>(crate::ops::math::ACosFunction)
    &&& r.functions.m()[lo("atan"@)] == dyn_fun::<'a, N, crate::ops::math::ATanFunction>(crate::ops::math::ATanFunction)
    &&& r.functions.m()[lo("acsc"@)] == dyn_fun::<'a, N, crate::ops::math::ACscFunction>(crate::ops::math::ACscFunction)
    &&& r.functions.m()[lo("asec"@)] == dyn_fun::<'a, N, crate::ops::math::ASecFunction>(crate::ops::math::ASecFunction)
    &&& r.functions.m()[lo("acot"@)] == dyn_fun::<'a, N, crate::ops::math::ACotFunction>(crate::ops::math::ACotFunction)
    &&& r.functions.m()[lo("sinh"@)] == dyn_fun::<'a, N, crate::ops::math::SinhFunction>(crate::ops::math::SinhFunction)
    &&& r.functions.m()[lo("cosh"@)] == dyn_fun::<'a, N, crate::ops::math::CoshFunction>(crate::ops::math::CoshFunction)
    &&& r.functions.m()[lo("tanh"@)] == dyn_fun::<'a, N, crate::ops::math::TanhFunction>(crate::ops::math::TanhFunction)
    &&& r.functions.m()[lo("csch"@)] == dyn_fun::<'a, N, crate::ops::math::CschFunction>(crate::ops::math::CschFunction)
    &&& r.functions.m()[lo("sech"@)] == dyn_fun::<'a, N, crate::ops::math::SechFunction>(crate::ops::math::SechFunction)
    &&& r.functions.m()[lo("coth"@)] == dyn_fun::<'a, N, crate::ops::math::CothFunction>(crate::ops::math::CothFunction)
    &&& r.functions.m()[lo("asinh"@)] == dyn_fun::<'a, N, crate::ops::math::ASinhFunction>(crate::ops::math::ASinhFunction)
    &&& r.functions.m()[lo("acosh"@)] == dyn_fun::<'a, N, crate::ops::math::ACoshFunction>(crate::ops::math::ACoshFunction)
    &&& r.functions.m()[lo("atanh"@)] == dyn_fun::<'a, N, crate::ops::math::ATanhFunction>(crate::ops::math::ATanhFunction)
    &&& r.functions.m()[lo("acsch"@)] == dyn_fun::<'a, N, crate::ops::math::ACschFunction>(crate::ops::math::ACschFunction)
    &&& r.functions.m()[lo("asech"@)] == dyn_fun::<'a, N, crate::ops::math::ASechFunction>(crate::ops::math::ASechFunction)
    &&& r.functions.m()[lo("acoth"@)] == dyn_fun::<'a, N, crate::ops::math::ACothFunction>(crate::ops::math::ACothFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.binary_functions.m().dom().contains(k) <==> b_names(k)
    &&& r.binary_functions.m()[lo("+"@)] == dyn_bin::<'a, N, crate::ops::checked::AddOperator>(crate::ops::checked::AddOperator)
    &&& r.binary_functions.m()[lo("-"@)] == dyn_bin::<'a, N, crate::ops::checked::SubOperator>(crate::ops::checked::SubOperator)
    &&& r.binary_functions.m()[lo("*"@)] == dyn_bin::<'a, N, crate::ops::checked::MulOperator>(crate::ops::checked::MulOperator)
    &&& r.binary_functions.m()[lo("/"@)] == dyn_bin::<'a, N, crate::ops::checked::DivOperator>(crate::ops::checked::DivOperator)
    &&& r.binary_functions.m()[lo("mod"@)] == dyn_bin::<'a, N, crate::ops::checked::ModOperator>(crate::ops::checked::ModOperator)
    &&& r.binary_functions.m()[lo("^"@)] == dyn_bin::<'a, N, crate::ops::math::PowOperator>(crate::ops::math::PowOperator)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.unary_functions.m().dom().contains(k) <==> u_names(k)
    &&& r.unary_functions.m()[lo("+"@)] == dyn_un::<'a, N, crate::ops::math::UnaryPlus>(crate::ops::math::UnaryPlus)
    &&& r.unary_functions.m()[lo("-"@)] == dyn_un::<'a, N, crate::ops::checked::UnaryMinus>(crate::ops::checked::UnaryMinus)
    &&& r.unary_functions.m()[lo("!"@)] == dyn_un::<'a, N, crate::ops::checked::Factorial>(crate::ops::checked::Factorial)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.constants.m().dom().contains(k) <==> c_names(k)
    &&& r.constants.m()[lo("PI"@)] == N::s_from_f64(s_pi()).unwrap()
    &&& r.constants.m()[lo("E"@)] == N::s_from_f64(s_e()).unwrap()
    &&& r.variables.m() == vstd::imap::IMap::<Seq<char>, N>::empty()
}
impl<'a, N: CheckedNum> DefaultContext<'a, N> {
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn with_config_checked
//@ ret r
//@ spec
        requires N::s_from_f64(s_pi()) is Some, N::s_from_f64(s_e()) is Some,
        ensures offers(r), r.config == config
//@ start
        hide(add_all); hide(names); hide(s_valid);
        broadcast use {ax_names1, ax_names2, ax_names3, ax_names4, ax_names5, ax_names6};
        proof { k_abs(); k_sum(); k_product(); k_avg(); k_max(); k_min(); k_sqrt(); k_ln(); k_log(); k_exp(); k_floor(); k_ceil(); k_truncate(); k_round(); k_sign(); k_random(); k_to_radians(); k_to_degrees(); k_sin(); k_cos(); k_tan(); k_csc(); k_sec(); k_cot(); k_asin(); k_acos(); k_atan(); k_acsc(); k_asec(); k_acot(); k_sinh(); k_cosh(); k_tanh(); k_csch(); k_sech(); k_coth(); k_asinh(); k_acosh(); k_atanh(); k_acsch(); k_asech(); k_acoth(); k_c_PI(); k_c_E(); k_plus(); k_minus(); k_star(); k_slash(); k_mod(); k_caret(); k_bang(); }
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn new_checked
//@ ret r
//@ spec
        requires N::s_from_f64(s_pi()) is Some, N::s_from_f64(s_e()) is Some,
        ensures offers(r)
//@ end
}
}
pub mod ctx_unchecked { use super::*; use super::ops::math::*;
/// the names of the functions, of the operators and of the constants
pub open spec fn f_names(k: Seq<Seq<char>>) -> bool { k == lo("sum"@) || k == lo("product"@) || k == lo("avg"@) || k == lo("max"@) || k == lo("min"@) || k == lo("sqrt"@) || k == lo("ln"@) || k == lo("log"@) || k == lo("exp"@) || k == lo("random"@) || k == lo("to_radians"@) || k == lo("to_degrees"@) || k == lo("sin"@) || k == lo("cos"@) || k == lo("tan"@) || k == lo("csc"@) || k == lo("sec"@) || k == lo("cot"@) || k == lo("asin"@) || k == lo("acos"@) || k == lo("atan"@) || k == lo("acsc"@) || k == lo("asec"@) || k == lo("acot"@) || k == lo("sinh"@) || k == lo("cosh"@) || k == lo("tanh"@) || k == lo("csch"@) || k == lo("sech"@) || k == lo("coth"@) || k == lo("asinh"@) || k == lo("acosh"@) || k == lo("atanh"@) || k == lo("acsch"@) || k == lo("asech"@) || k == lo("acoth"@) }
pub open spec fn b_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("*"@) || k == lo("/"@) || k == lo("mod"@) || k == lo("^"@) }
pub open spec fn u_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("!"@) }
pub open spec fn c_names(k: Seq<Seq<char>>) -> bool { k == lo("PI"@) || k == lo("E"@) }
pub open spec fn offers<'a, N: UncheckedNum>(r: DefaultContext<'a, N>) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.functions.m().dom().contains(k) <==> f_names(k)
    &&& r.functions.m()[lo("sum"@)] == dyn_fun::<'a, N, crate::ops::unchecked::SumFunction>(crate::ops::unchecked::SumFunction)
    &&& r.functions.m()[lo("product"@)] == dyn_fun::<'a, N, crate::ops::unchecked::ProdFunction>(crate::ops::unchecked::ProdFunction)
    &&& r.functions.m()[lo("avg"@)] == dyn_fun::<'a, N, crate::ops::unchecked::AvgFunction>(crate::ops::unchecked::AvgFunction)
    &&& r.functions.m()[lo("max"@)] == dyn_fun::<'a, N, crate::ops::math::MaxFunction>(crate::ops::math::MaxFunction)
    &&& r.functions.m()[lo("min"@)] == dyn_fun::<'a, N, crate::ops::math::MinFunction>(crate::ops::math::MinFunction)
    &&& r.functions.m()[lo("sqrt"@)] == dyn_fun::<'a, N, crate::ops::math::SqrtFunction>(crate::ops::math::SqrtFunction)
    &&& r.functions.m()[lo("ln"@)] == dyn_fun::<'a, N, crate::ops::math::LnFunction>(crate::ops::math::LnFunction)
    &&& r.functions.m()[lo("log"@)] == dyn_fun::<'a, N, crate::ops::math::LogFunction>(crate::ops::math::LogFunction)
    &&& r.functions.m()[lo("exp"@)] == dyn_fun::<'a, N, crate::ops::math::ExpFunction>(crate::ops::math::ExpFunction)
    &&& r.functions.m()[lo("random"@)] == dyn_fun::<'a, N, crate::ops::math::RandFunction>(crate::ops::math::RandFunction)
    &&& r.functions.m()[lo("to_radians"@)] == dyn_fun::<'a, N, crate::ops::math::ToRadiansFunction>(crate::ops::math::ToRadiansFunction)
    &&& r.functions.m()[lo("to_degrees"@)] == dyn_fun::<'a, N, crate::ops::math::ToDegreesFunction>(crate::ops::math::ToDegreesFunction)
    &&& r.functions.m()[lo("sin"@)] == dyn_fun::<'a, N, crate::ops::math::SinFunction>(crate::ops::math::SinFunction)
    &&& r.functions.m()[lo("cos"@)] == dyn_fun::<'a, N, crate::ops::math::CosFunction>(crate::ops::math::CosFunction)
    &&& r.functions.m()[lo("tan"@)] == dyn_fun::<'a, N, crate::ops::math::TanFunction>(crate::ops::math::TanFunction)
    &&& r.functions.m()[lo("csc"@)] == dyn_fun::<'a, N, crate::ops::math::CscFunction>(crate::ops::math::CscFunction)
    &&& r.functions.m()[lo("sec"@)] == dyn_fun::<'a, N, crate::ops::math::SecFunction>(crate::ops::math::SecFunction)
    &&& r.functions.m()[lo("cot"@)] == dyn_fun::<'a, N, crate::ops::math::CotFunction>(crate::ops::math::CotFunction)
    &&& r.functions.m()[lo("asin"@)] == dyn_fun::<'a, N, crate::ops::math::ASinFunction>(crate::ops::math::ASinFunction)
    &&& r.functions.m()[lo("acos"@)] == dyn_fun::<'a, N, crate::ops::math::ACosFunction>(crate::ops::math::ACosFunction)
    &&& r.functions.m()[lo("atan"@)] == dyn_fun::<'a, N, crate::ops::math::ATanFunction>(crate::ops::math::ATanFunction)
    &&& r.functions.m()[lo("acsc"@)] == dyn_fun::<'a, N, crate::ops::math::ACscFunction>(crate::ops::math::ACscFunction)
    &&& r.functions.m()[lo("asec"@)] == dyn_fun::<'a, N, crate::ops::math::ASecFunction>(crate::ops::math::ASecFunction)
    &&& r.functions.m()[lo("acot"@)] == dyn_fun::<'a, N, crate::ops::math::ACotFunction>(crate::ops::math::ACotFunction)
    &&& r.functions.m()[lo("sinh"@)] == dyn_fun::<'a, N, crate::ops::math::SinhFunction>(crate::ops::math::SinhFunction)
    &&& r.functions.m()[lo("cosh"@)] == dyn_fun::<'a, N, crate::ops::math::CoshFunction>(crate::ops::math::CoshFunction)
    &&& r.functions.m()[lo("tanh"@)] == dyn_fun::<'a, N, crate::ops::math::TanhFunction>(crate::ops::math::TanhFunction)
    &&& r.functions.m()[lo("csch"@)] == dyn_fun::<'a, N, crate::ops::math::CschFunction>(crate::ops::math::CschFunction)
    &&& r.functions.m()[lo("sech"@)] == dyn_fun::<'a, N, crate::ops::math::SechFunction>(crate::ops::math::SechFunction)
    &&& r.functions.m()[lo("coth"@)] == dyn_fun::<'a, N, crate::ops::math::CothFunction>(crate::ops::math::CothFunction)
    &&& r.functions.m()[lo("asinh"@)] == dyn_fun::<'a, N, crate::ops::math::ASinhFunction>(crate::ops::math::ASinhFunction)
    &&& r.functions.m()[lo("acosh"@)] == dyn_fun::<'a, N, crate::ops::math::ACoshFunction>(crate::ops::math::ACoshFunction)
    &&& r.functions.m()[lo("atanh"@)] == dyn_fun::<'a, N, crate::ops::math::ATanhFunction>(crate::ops::math::ATanhFunction)
    &&& r.functions.m()[lo("acsch"@)] == dyn_fun::<'a, N, crate::ops::math::ACschFunction>(crate::ops::math::ACschFunction)
    &&& r.functions.m()[lo("asech"@)] == dyn_fun::<'a, N, crate::ops::math::ASechFunction>(crate::ops::math::ASechFunction)
    &&& r.functions.m()[lo("acoth"@)] == dyn_fun::<'a, N, crate::ops::math::ACothFunction>(crate::ops::math::ACothFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.binary_functions.m().dom().contains(k) <==> b_names(k)
    &&& r.binary_functions.m()[lo("+"@)] == dyn_bin::<'a, N, crate::ops::unchecked::AddOperator>(crate::ops::unchecked::AddOperator)
    &&& r.binary_functions.m()[lo("-"@)] == dyn_bin::<'a, N, crate::ops::unchecked::SubOperator>(crate::ops::unchecked::SubOperator)
    &&& r.binary_functions.m()[lo("*"@)] == dyn_bin::<'a, N, crate::ops::unchecked::MulOperator>(crate::ops::unchecked::MulOperator)
    &&& r.binary_functions.m()[lo("/"@)] == dyn_bin::<'a, N, crate::ops::unchecked::DivOperator>(crate::ops::unchecked::DivOperator)
    &&& r.binary_functions.m()[lo("mod"@)] == dyn_bin::<'a, N, crate::ops::unchecked::ModOperator>(crate::ops::unchecked::ModOperator)
    &&& r.binary_functions.m()[lo("^"@)] == dyn_bin::<'a, N, crate::ops::math::PowOperator>(crate::ops::math::PowOperator)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.unary_functions.m().dom().contains(k) <==> u_names(k)
    &&& r.unary_functions.m()[lo("+"@)] == dyn_un::<'a, N, crate::ops::math::UnaryPlus>(crate::ops::math::UnaryPlus)
    &&& r.unary_functions.m()[lo("-"@)] == dyn_un::<'a, N, crate::ops::unchecked::UnaryMinus>(crate::ops::unchecked::UnaryMinus)
    &&& r.unary_functions.m()[lo("!"@)] == dyn_un::<'a, N, crate::ops::math::Factorial>(crate::ops::math::Factorial)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.constants.m().dom().contains(k) <==> c_names(k)
    &&& r.constants.m()[lo("PI"@)] == N::s_from_f64(s_pi()).unwrap()
    &&& r.constants.m()[lo("E"@)] == N::s_from_f64(s_e()).unwrap()
    &&& r.variables.m() == vstd::imap::IMap::<Seq<char>, N>::empty()
}
impl<'a, N: UncheckedNum> DefaultContext<'a, N> {
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn with_config_unchecked
//@ ret r
//@ spec
        requires N::s_from_f64(s_pi()) is Some, N::s_from_f64(s_e()) is Some,
        ensures offers(r), r.config == config
//@ start
        hide(add_all); hide(names); hide(s_valid);
        broadcast use {ax_names1, ax_names2, ax_names3, ax_names4, ax_names5, ax_names6};
        proof { k_sum(); k_product(); k_avg(); k_max(); k_min(); k_sqrt(); k_ln(); k_log(); k_exp(); k_random(); k_to_radians(); k_to_degrees(); k_sin(); k_cos(); k_tan(); k_csc(); k_sec(); k_cot(); k_asin(); k_acos(); k_atan(); k_acsc(); k_asec(); k_acot(); k_sinh(); k_cosh(); k_tanh(); k_csch(); k_sech(); k_coth(); k_asinh(); k_acosh(); k_atanh(); k_acsch(); k_asech(); k_acoth(); k_c_PI(); k_c_E(); k_plus(); k_minus(); k_star(); k_slash(); k_mod(); k_caret(); k_bang(); }
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn new_unchecked
//@ ret r
//@ spec
        requires N::s_from_f64(s_pi()) is Some, N::s_from_f64(s_e()) is Some,
        ensures offers(r)
//@ end
}
}
pub mod ctx_decimal { use super::*; use super::decimal::ops::*; use super::ops::math::{MaxFunction, MinFunction, RandFunction, UnaryPlus};
/// the names of the functions, of the operators and of the constants
pub open spec fn f_names(k: Seq<Seq<char>>) -> bool { k == lo("sum"@) || k == lo("avg"@) || k == lo("product"@) || k == lo("cbrt"@) || k == lo("sqrt"@) || k == lo("ln"@) || k == lo("log"@) || k == lo("ceil"@) || k == lo("floor"@) || k == lo("truncate"@) || k == lo("round"@) || k == lo("exp"@) || k == lo("to_radians"@) || k == lo("to_degrees"@) || k == lo("sin"@) || k == lo("cos"@) || k == lo("tan"@) || k == lo("csc"@) || k == lo("sec"@) || k == lo("cot"@) || k == lo("asin"@) || k == lo("acos"@) || k == lo("atan"@) || k == lo("acsc"@) || k == lo("asec"@) || k == lo("acot"@) || k == lo("sinh"@) || k == lo("cosh"@) || k == lo("tanh"@) || k == lo("csch"@) || k == lo("sech"@) || k == lo("coth"@) || k == lo("asinh"@) || k == lo("acosh"@) || k == lo("atanh"@) || k == lo("acsch"@) || k == lo("asech"@) || k == lo("acoth"@) || k == lo("max"@) || k == lo("min"@) || k == lo("random"@) }
pub open spec fn b_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("*"@) || k == lo("/"@) || k == lo("mod"@) || k == lo("^"@) }
pub open spec fn u_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("!"@) }
pub open spec fn c_names(k: Seq<Seq<char>>) -> bool { k == lo("PI"@) || k == lo("E"@) }
pub open spec fn offers<'a>(r: DefaultContext<'a, Decimal>) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.functions.m().dom().contains(k) <==> f_names(k)
    &&& r.functions.m()[lo("sum"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SumFunction>(crate::decimal::ops::SumFunction)
    &&& r.functions.m()[lo("avg"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::AvgFunction>(crate::decimal::ops::AvgFunction)
    &&& r.functions.m()[lo("product"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ProdFunction>(crate::decimal::ops::ProdFunction)
    &&& r.functions.m()[lo("cbrt"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CbrtFunction>(crate::decimal::ops::CbrtFunction)
    &&& r.functions.m()[lo("sqrt"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SqrtFunction>(crate::decimal::ops::SqrtFunction)
    &&& r.functions.m()[lo("ln"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::LnFunction>(crate::decimal::ops::LnFunction)
    &&& r.functions.m()[lo("log"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::LogFunction>(crate::decimal::ops::LogFunction)
    &&& r.functions.m()[lo("ceil"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CeilFunction>(crate::decimal::ops::CeilFunction)
    &&& r.functions.m()[lo("floor"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::FloorFunction>(crate::decimal::ops::FloorFunction)
    &&& r.functions.m()[lo("truncate"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::TruncateFunction>(crate::decimal::ops::TruncateFunction)
    &&& r.functions.m()[lo("round"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::RoundFunction>(crate::decimal::ops::RoundFunction)
    &&& r.functions.m()[lo("exp"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ExpFunction>(crate::decimal::ops::ExpFunction)
    &&& r.functions.m()[lo("to_radians"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ToRadiansFunction>(crate::decimal::ops::ToRadiansFunction)
    &&& r.functions.m()[lo("to_degrees"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ToDegreesFunction>(crate::decimal::ops::ToDegreesFunction)
    &&& r.functions.m()[lo("sin"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SinFunction>(crate::decimal::ops::SinFunction)
    &&& r.functions.m()[lo("cos"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CosFunction>(crate::decimal::ops::CosFunction)
    &&& r.functions.m()[lo("tan"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::TanFunction>(crate::decimal::ops::TanFunction)
    &&& r.functions.m()[lo("csc"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CscFunction>(crate::decimal::ops::CscFunction)
    &&& r.functions.m()[lo("sec"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SecFunction>(crate::decimal::ops::SecFunction)
    &&& r.functions.m()[lo("cot"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CotFunction>(crate::decimal::ops::CotFunction)
    &&& r.functions.m()[lo("asin"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ASinFunction>(crate::decimal::ops::ASinFunction)
    &&& r.functions.m()[lo("acos"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACosFunction>(crate::decimal::ops::ACosFunction)
    &&& r.functions.m()[lo("atan"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ATanFunction>(crate::decimal::ops::ATanFunction)
    &&& r.functions.m()[lo("acsc"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACscFunction>(crate::decimal::ops::ACscFunction)
    &&& r.functions.m()[lo("asec"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ASecFunction>(crate::decimal::ops::ASecFunction)
    &&& r.functions.m()[lo("acot"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACotFunction>(crate::decimal::ops::ACotFunction)
    &&& r.functions.m()[lo("sinh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SinhFunction>(crate::decimal::ops::SinhFunction)
    &&& r.functions.m()[lo("cosh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CoshFunction>(crate::decimal::ops::CoshFunction)
    &&& r.functions.m()[lo("tanh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::TanhFunction>(crate::decimal::ops::TanhFunction)
    &&& r.functions.m()[lo("csch"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CschFunction>(crate::decimal::ops::CschFunction)
    &&& r.functions.m()[lo("sech"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::SechFunction>(crate::decimal::ops::SechFunction)
    &&& r.functions.m()[lo("coth"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::CothFunction>(crate::decimal::ops::CothFunction)
    &&& r.functions.m()[lo("asinh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ASinhFunction>(crate::decimal::ops::ASinhFunction)
    &&& r.functions.m()[lo("acosh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACoshFunction>(crate::decimal::ops::ACoshFunction)
    &&& r.functions.m()[lo("atanh"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ATanhFunction>(crate::decimal::ops::ATanhFunction)
    &&& r.functions.m()[lo("acsch"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACschFunction>(crate::decimal::ops::ACschFunction)
    &&& r.functions.m()[lo("asech"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ASechFunction>(crate::decimal::ops::ASechFunction)
    &&& r.functions.m()[lo("acoth"@)] == dyn_fun::<'a, Decimal, crate::decimal::ops::ACothFunction>(crate::decimal::ops::ACothFunction)
    &&& r.functions.m()[lo("max"@)] == dyn_fun::<'a, Decimal, crate::ops::math::MaxFunction>(crate::ops::math::MaxFunction)
    &&& r.functions.m()[lo("min"@)] == dyn_fun::<'a, Decimal, crate::ops::math::MinFunction>(crate::ops::math::MinFunction)
    &&& r.functions.m()[lo("random"@)] == dyn_fun::<'a, Decimal, crate::ops::math::RandFunction>(crate::ops::math::RandFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.binary_functions.m().dom().contains(k) <==> b_names(k)
    &&& r.binary_functions.m()[lo("+"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::AddOperator>(crate::decimal::ops::AddOperator)
    &&& r.binary_functions.m()[lo("-"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::SubOperator>(crate::decimal::ops::SubOperator)
    &&& r.binary_functions.m()[lo("*"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::MulOperator>(crate::decimal::ops::MulOperator)
    &&& r.binary_functions.m()[lo("/"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::DivOperator>(crate::decimal::ops::DivOperator)
    &&& r.binary_functions.m()[lo("mod"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::ModOperator>(crate::decimal::ops::ModOperator)
    &&& r.binary_functions.m()[lo("^"@)] == dyn_bin::<'a, Decimal, crate::decimal::ops::PowOperator>(crate::decimal::ops::PowOperator)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.unary_functions.m().dom().contains(k) <==> u_names(k)
    &&& r.unary_functions.m()[lo("+"@)] == dyn_un::<'a, Decimal, crate::ops::math::UnaryPlus>(crate::ops::math::UnaryPlus)
    &&& r.unary_functions.m()[lo("-"@)] == dyn_un::<'a, Decimal, crate::decimal::ops::UnaryMinus>(crate::decimal::ops::UnaryMinus)
    &&& r.unary_functions.m()[lo("!"@)] == dyn_un::<'a, Decimal, crate::decimal::ops::Factorial>(crate::decimal::ops::Factorial)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.constants.m().dom().contains(k) <==> c_names(k)
    &&& r.constants.m()[lo("PI"@)] == consts::s_PI()
    &&& r.constants.m()[lo("E"@)] == consts::s_E()
    &&& r.variables.m() == vstd::imap::IMap::<Seq<char>, Decimal>::empty()
}
impl<'a> DefaultContext<'a, Decimal> {
//@ extract prexel/src/decimal/mod.rs | mod context / impl DefaultContext<'a,Decimal> / fn with_config_decimal
//@ ret r
//@ spec
        ensures offers(r), r.config == config
//@ start
        hide(add_all); hide(names); hide(s_valid);
        broadcast use {ax_names1, ax_names2, ax_names3, ax_names4, ax_names5, ax_names6};
        proof { k_sum(); k_avg(); k_product(); k_cbrt(); k_sqrt(); k_ln(); k_log(); k_ceil(); k_floor(); k_truncate(); k_round(); k_exp(); k_to_radians(); k_to_degrees(); k_sin(); k_cos(); k_tan(); k_csc(); k_sec(); k_cot(); k_asin(); k_acos(); k_atan(); k_acsc(); k_asec(); k_acot(); k_sinh(); k_cosh(); k_tanh(); k_csch(); k_sech(); k_coth(); k_asinh(); k_acosh(); k_atanh(); k_acsch(); k_asech(); k_acoth(); k_max(); k_min(); k_random(); k_c_PI(); k_c_E(); k_plus(); k_minus(); k_star(); k_slash(); k_mod(); k_caret(); k_bang(); }
//@ end
//@ extract prexel/src/decimal/mod.rs | mod context / impl DefaultContext<'a,Decimal> / fn new_decimal
//@ ret r
//@ spec
        ensures offers(r)
//@ end
}
}
pub mod ctx_complex { use super::*; use super::ops::unchecked::*; use super::complex::ops::*; use super::ops::math::UnaryPlus;
/// the names of the functions, of the operators and of the constants
pub open spec fn f_names(k: Seq<Seq<char>>) -> bool { k == lo("sqrt"@) || k == lo("ln"@) || k == lo("log"@) || k == lo("random"@) || k == lo("exp"@) || k == lo("sin"@) || k == lo("cos"@) || k == lo("tan"@) || k == lo("csc"@) || k == lo("sec"@) || k == lo("cot"@) || k == lo("asin"@) || k == lo("acos"@) || k == lo("atan"@) || k == lo("acsc"@) || k == lo("asec"@) || k == lo("acot"@) || k == lo("sinh"@) || k == lo("cosh"@) || k == lo("tanh"@) || k == lo("csch"@) || k == lo("sech"@) || k == lo("coth"@) || k == lo("asinh"@) || k == lo("acosh"@) || k == lo("atanh"@) || k == lo("acsch"@) || k == lo("asech"@) || k == lo("acoth"@) || k == lo("sum"@) || k == lo("avg"@) || k == lo("product"@) }
pub open spec fn b_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) || k == lo("*"@) || k == lo("/"@) || k == lo("mod"@) || k == lo("^"@) }
pub open spec fn u_names(k: Seq<Seq<char>>) -> bool { k == lo("+"@) || k == lo("-"@) }
pub open spec fn c_names(k: Seq<Seq<char>>) -> bool { k == lo("PI"@) || k == lo("E"@) || k == lo("i"@) }
pub open spec fn offers<'a, T: Float>(r: DefaultContext<'a, Complex<T>>) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.functions.m().dom().contains(k) <==> f_names(k)
    &&& r.functions.m()[lo("sqrt"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::SqrtFunction>(crate::complex::ops::SqrtFunction)
    &&& r.functions.m()[lo("ln"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::LnFunction>(crate::complex::ops::LnFunction)
    &&& r.functions.m()[lo("log"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::LogFunction>(crate::complex::ops::LogFunction)
    &&& r.functions.m()[lo("random"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::RandFunction>(crate::complex::ops::RandFunction)
    &&& r.functions.m()[lo("exp"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ExpFunction>(crate::complex::ops::ExpFunction)
    &&& r.functions.m()[lo("sin"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::SinFunction>(crate::complex::ops::SinFunction)
    &&& r.functions.m()[lo("cos"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CosFunction>(crate::complex::ops::CosFunction)
    &&& r.functions.m()[lo("tan"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::TanFunction>(crate::complex::ops::TanFunction)
    &&& r.functions.m()[lo("csc"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CscFunction>(crate::complex::ops::CscFunction)
    &&& r.functions.m()[lo("sec"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::SecFunction>(crate::complex::ops::SecFunction)
    &&& r.functions.m()[lo("cot"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CotFunction>(crate::complex::ops::CotFunction)
    &&& r.functions.m()[lo("asin"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ASinFunction>(crate::complex::ops::ASinFunction)
    &&& r.functions.m()[lo("acos"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACosFunction>(crate::complex::ops::ACosFunction)
    &&& r.functions.m()[lo("atan"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ATanFunction>(crate::complex::ops::ATanFunction)
    &&& r.functions.m()[lo("acsc"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACscFunction>(crate::complex::ops::ACscFunction)
    &&& r.functions.m()[lo("asec"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ASecFunction>(crate::complex::ops::ASecFunction)
    &&& r.functions.m()[lo("acot"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACotFunction>(crate::complex::ops::ACotFunction)
    &&& r.functions.m()[lo("sinh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::SinhFunction>(crate::complex::ops::SinhFunction)
    &&& r.functions.m()[lo("cosh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CoshFunction>(crate::complex::ops::CoshFunction)
    &&& r.functions.m()[lo("tanh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::TanhFunction>(crate::complex::ops::TanhFunction)
    &&& r.functions.m()[lo("csch"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CschFunction>(crate::complex::ops::CschFunction)
    &&& r.functions.m()[lo("sech"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::SechFunction>(crate::complex::ops::SechFunction)
    &&& r.functions.m()[lo("coth"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::CothFunction>(crate::complex::ops::CothFunction)
    &&& r.functions.m()[lo("asinh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ASinhFunction>(crate::complex::ops::ASinhFunction)
    &&& r.functions.m()[lo("acosh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACoshFunction>(crate::complex::ops::ACoshFunction)
    &&& r.functions.m()[lo("atanh"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ATanhFunction>(crate::complex::ops::ATanhFunction)
    &&& r.functions.m()[lo("acsch"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACschFunction>(crate::complex::ops::ACschFunction)
    &&& r.functions.m()[lo("asech"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ASechFunction>(crate::complex::ops::ASechFunction)
    &&& r.functions.m()[lo("acoth"@)] == dyn_fun::<'a, Complex<T>, crate::complex::ops::ACothFunction>(crate::complex::ops::ACothFunction)
    &&& r.functions.m()[lo("sum"@)] == dyn_fun::<'a, Complex<T>, crate::ops::unchecked::SumFunction>(crate::ops::unchecked::SumFunction)
    &&& r.functions.m()[lo("avg"@)] == dyn_fun::<'a, Complex<T>, crate::ops::unchecked::AvgFunction>(crate::ops::unchecked::AvgFunction)
    &&& r.functions.m()[lo("product"@)] == dyn_fun::<'a, Complex<T>, crate::ops::unchecked::ProdFunction>(crate::ops::unchecked::ProdFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.binary_functions.m().dom().contains(k) <==> b_names(k)
    &&& r.binary_functions.m()[lo("+"@)] == dyn_bin::<'a, Complex<T>, crate::ops::unchecked::AddOperator>(crate::ops::unchecked::AddOperator)
    &&& r.binary_functions.m()[lo("-"@)] == dyn_bin::<'a, Complex<T>, crate::ops::unchecked::SubOperator>(crate::ops::unchecked::SubOperator)
    &&& r.binary_functions.m()[lo("*"@)] == dyn_bin::<'a, Complex<T>, crate::ops::unchecked::MulOperator>(crate::ops::unchecked::MulOperator)
    &&& r.binary_functions.m()[lo("/"@)] == dyn_bin::<'a, Complex<T>, crate::ops::unchecked::DivOperator>(crate::ops::unchecked::DivOperator)
    &&& r.binary_functions.m()[lo("mod"@)] == dyn_bin::<'a, Complex<T>, crate::ops::unchecked::ModOperator>(crate::ops::unchecked::ModOperator)
    &&& r.binary_functions.m()[lo("^"@)] == dyn_bin::<'a, Complex<T>, crate::complex::ops::PowOperator>(crate::complex::ops::PowOperator)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.unary_functions.m().dom().contains(k) <==> u_names(k)
    &&& r.unary_functions.m()[lo("+"@)] == dyn_un::<'a, Complex<T>, crate::ops::math::UnaryPlus>(crate::ops::math::UnaryPlus)
    &&& r.unary_functions.m()[lo("-"@)] == dyn_un::<'a, Complex<T>, crate::ops::unchecked::UnaryMinus>(crate::ops::unchecked::UnaryMinus)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.constants.m().dom().contains(k) <==> c_names(k)
    &&& r.constants.m()[lo("PI"@)] == Complex::<T>::s_from_f64(s_pi()).unwrap()
    &&& r.constants.m()[lo("E"@)] == Complex::<T>::s_from_f64(s_e()).unwrap()
    &&& r.constants.m()[lo("i"@)] == Complex::<T>::s_i()
    &&& r.variables.m() == vstd::imap::IMap::<Seq<char>, Complex<T>>::empty()
}
impl<'a, T: Float> DefaultContext<'a, Complex<T>> {
//@ extract prexel/src/complex/mod.rs | mod context / impl DefaultContext<'a,Complex<T>> / fn with_config_complex
//@ ret r
//@ spec
        requires Complex::<T>::s_from_f64(s_pi()) is Some, Complex::<T>::s_from_f64(s_e()) is Some,
        ensures offers(r), r.config == (Config { complex_number: true, ..config })
//@ start
        hide(add_all); hide(names); hide(s_valid);
        broadcast use {ax_names1, ax_names2, ax_names3, ax_names4, ax_names5, ax_names6};
        proof { k_sqrt(); k_ln(); k_log(); k_random(); k_exp(); k_sin(); k_cos(); k_tan(); k_csc(); k_sec(); k_cot(); k_asin(); k_acos(); k_atan(); k_acsc(); k_asec(); k_acot(); k_sinh(); k_cosh(); k_tanh(); k_csch(); k_sech(); k_coth(); k_asinh(); k_acosh(); k_atanh(); k_acsch(); k_asech(); k_acoth(); k_sum(); k_avg(); k_product(); k_c_PI(); k_c_E(); k_c_i(); k_plus(); k_minus(); k_star(); k_slash(); k_mod(); k_caret(); }
//@ end
//@ extract prexel/src/complex/mod.rs | mod context / impl DefaultContext<'a,Complex<T>> / fn new_complex
//@ ret r
//@ spec
        requires Complex::<T>::s_from_f64(s_pi()) is Some, Complex::<T>::s_from_f64(s_e()) is Some,
        ensures offers(r)
//@ end
}
}
pub mod ctx_binary { use super::*; 
/// the names of the functions, of the operators and of the constants
pub open spec fn f_names(k: Seq<Seq<char>>) -> bool { false }
pub open spec fn b_names(k: Seq<Seq<char>>) -> bool { k == lo("&"@) || k == lo("and"@) || k == lo("|"@) || k == lo("or"@) || k == lo("^"@) || k == lo("xor"@) || k == lo("=="@) || k == lo("eq"@) || k == lo("equal"@) || k == lo("!="@) || k == lo("ne"@) || k == lo("no_equal"@) || k == lo(">"@) || k == lo("gt"@) || k == lo("<"@) || k == lo("lt"@) || k == lo(">="@) || k == lo("gte"@) || k == lo("<="@) || k == lo("lte"@) || k == lo(">>"@) || k == lo("shr"@) || k == lo("<<"@) || k == lo("shl"@) }
pub open spec fn u_names(k: Seq<Seq<char>>) -> bool { k == lo("~"@) || k == lo("not"@) }
pub open spec fn c_names(k: Seq<Seq<char>>) -> bool { false }
pub open spec fn offers<'a>(r: DefaultContext<'a, Binary>) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.functions.m().dom().contains(k) <==> f_names(k)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.binary_functions.m().dom().contains(k) <==> b_names(k)
    &&& r.binary_functions.m()[lo("&"@)] == dyn_bin::<'a, Binary, crate::binary::math::AndFunction>(crate::binary::math::AndFunction)
    &&& r.binary_functions.m()[lo("and"@)] == dyn_bin::<'a, Binary, crate::binary::math::AndFunction>(crate::binary::math::AndFunction)
    &&& r.binary_functions.m()[lo("|"@)] == dyn_bin::<'a, Binary, crate::binary::math::OrFunction>(crate::binary::math::OrFunction)
    &&& r.binary_functions.m()[lo("or"@)] == dyn_bin::<'a, Binary, crate::binary::math::OrFunction>(crate::binary::math::OrFunction)
    &&& r.binary_functions.m()[lo("^"@)] == dyn_bin::<'a, Binary, crate::binary::math::XorFunction>(crate::binary::math::XorFunction)
    &&& r.binary_functions.m()[lo("xor"@)] == dyn_bin::<'a, Binary, crate::binary::math::XorFunction>(crate::binary::math::XorFunction)
    &&& r.binary_functions.m()[lo("=="@)] == dyn_bin::<'a, Binary, crate::binary::math::EqFunction>(crate::binary::math::EqFunction)
    &&& r.binary_functions.m()[lo("eq"@)] == dyn_bin::<'a, Binary, crate::binary::math::EqFunction>(crate::binary::math::EqFunction)
    &&& r.binary_functions.m()[lo("equal"@)] == dyn_bin::<'a, Binary, crate::binary::math::EqFunction>(crate::binary::math::EqFunction)
    &&& r.binary_functions.m()[lo("!="@)] == dyn_bin::<'a, Binary, crate::binary::math::NeFunction>(crate::binary::math::NeFunction)
    &&& r.binary_functions.m()[lo("ne"@)] == dyn_bin::<'a, Binary, crate::binary::math::NeFunction>(crate::binary::math::NeFunction)
    &&& r.binary_functions.m()[lo("no_equal"@)] == dyn_bin::<'a, Binary, crate::binary::math::NeFunction>(crate::binary::math::NeFunction)
    &&& r.binary_functions.m()[lo(">"@)] == dyn_bin::<'a, Binary, crate::binary::math::GtFunction>(crate::binary::math::GtFunction)
    &&& r.binary_functions.m()[lo("gt"@)] == dyn_bin::<'a, Binary, crate::binary::math::GtFunction>(crate::binary::math::GtFunction)
    &&& r.binary_functions.m()[lo("<"@)] == dyn_bin::<'a, Binary, crate::binary::math::LtFunction>(crate::binary::math::LtFunction)
    &&& r.binary_functions.m()[lo("lt"@)] == dyn_bin::<'a, Binary, crate::binary::math::LtFunction>(crate::binary::math::LtFunction)
    &&& r.binary_functions.m()[lo(">="@)] == dyn_bin::<'a, Binary, crate::binary::math::GteFunction>(crate::binary::math::GteFunction)
    &&& r.binary_functions.m()[lo("gte"@)] == dyn_bin::<'a, Binary, crate::binary::math::GteFunction>(crate::binary::math::GteFunction)
    &&& r.binary_functions.m()[lo("<="@)] == dyn_bin::<'a, Binary, crate::binary::math::LteFunction>(crate::binary::math::LteFunction)
    &&& r.binary_functions.m()[lo("lte"@)] == dyn_bin::<'a, Binary, crate::binary::math::LteFunction>(crate::binary::math::LteFunction)
    &&& r.binary_functions.m()[lo(">>"@)] == dyn_bin::<'a, Binary, crate::binary::math::ShrFunction>(crate::binary::math::ShrFunction)
    &&& r.binary_functions.m()[lo("shr"@)] == dyn_bin::<'a, Binary, crate::binary::math::ShrFunction>(crate::binary::math::ShrFunction)
    &&& r.binary_functions.m()[lo("<<"@)] == dyn_bin::<'a, Binary, crate::binary::math::ShlFunction>(crate::binary::math::ShlFunction)
    &&& r.binary_functions.m()[lo("shl"@)] == dyn_bin::<'a, Binary, crate::binary::math::ShlFunction>(crate::binary::math::ShlFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.unary_functions.m().dom().contains(k) <==> u_names(k)
    &&& r.unary_functions.m()[lo("~"@)] == dyn_un::<'a, Binary, crate::binary::math::NotFunction>(crate::binary::math::NotFunction)
    &&& r.unary_functions.m()[lo("not"@)] == dyn_un::<'a, Binary, crate::binary::math::NotFunction>(crate::binary::math::NotFunction)
    &&& forall|k: Seq<Seq<char>>| #[trigger] r.constants.m().dom().contains(k) <==> c_names(k)
    &&& r.variables.m() == vstd::imap::IMap::<Seq<char>, Binary>::empty()
}
impl<'a> DefaultContext<'a, Binary> {
//@ extract prexel/src/binary/mod.rs | impl DefaultContext<'a,Binary> / fn with_config_binary
//@ ret r
//@ spec
        ensures offers(r), r.config == config
//@ start
        hide(add_all); hide(names); hide(s_valid);
        broadcast use {ax_names1, ax_names2, ax_names3, ax_names4, ax_names5, ax_names6};
        proof {   k_amp(); k_w_and(); k_pipe(); k_w_or(); k_caret(); k_w_xor(); k_eqeq(); k_w_eq(); k_w_equal(); k_bangeq(); k_w_ne(); k_w_no_equal(); k_rang(); k_w_gt(); k_lang(); k_w_lt(); k_rangeq(); k_w_gte(); k_langeq(); k_w_lte(); k_rang2(); k_w_shr(); k_lang2(); k_w_shl(); k_tilde(); k_w_not(); }
//@ end
//@ extract prexel/src/binary/mod.rs | impl DefaultContext<'a,Binary> / fn new_binary
//@ ret r
//@ spec
        ensures offers(r)
//@ end
}
}
// ---------------------------------------------------------------- C24: what a name means to an expression
/// letter case does not matter
pub proof fn lemma_case(s: Seq<char>, t: Seq<char>)
    requires s.len() == t.len(), s.len() > 0,
        forall|i: int| 0 <= i < s.len() ==> '!' <= #[trigger] s[i] <= '~' && '!' <= t[i] <= '~' && alow(s[i]) == alow(t[i]),
    ensures lo(s) == lo(t)
{
    assert forall|i: int| 0 <= i < t.len() implies '!' <= #[trigger] t[i] <= '~' by { assert('!' <= s[i]); }
    lemma_lo(s); lemma_lo(t);
    assert forall|i: int| 0 <= i < s.len() implies lo(s)[i] == lo(t)[i] by { assert('!' <= s[i]); assert(lo(s)[i] == seq![alow(s[i])]); assert(lo(t)[i] == seq![alow(t[i])]); }
    assert(lo(s) =~= lo(t));
}
/// in any spelling, a registered name is looked up as the function registered under it, and no other name is a function
pub proof fn theorem_c24_fun<'a, N, F: Function<N> + 'a>(c: DefaultContext<'a, N>, f: F, n: Seq<char>, sp: Seq<char>)
    requires c.functions.m().dom().contains(lo(n)), c.functions.m()[lo(n)] == dyn_fun::<'a, N, F>(f), lo(sp) == lo(n),
    ensures (c.cx().fun)(sp) is Some, forall|a: Seq<N>| #[trigger] ((c.cx().fun)(sp).unwrap())(a) == f.s_call(a),
{ broadcast use ax_dyn_fun; }
pub proof fn theorem_c24_none<'a, N>(c: DefaultContext<'a, N>, sp: Seq<char>)
    ensures !c.functions.m().dom().contains(lo(sp)) ==> (c.cx().fun)(sp) is None,
        !c.binary_functions.m().dom().contains(lo(sp)) ==> (c.cx().bin)(sp) is None,
        !c.unary_functions.m().dom().contains(lo(sp)) ==> (c.cx().un)(sp) is None,
        c.constants.m().dom().contains(lo(sp)) ==> (c.cx().con)(sp) == Some(c.constants.m()[lo(sp)]),
        !c.constants.m().dom().contains(lo(sp)) ==> (c.cx().con)(sp) is None,
{}
pub broadcast axiom fn ax_dyn_bin2<'a, N, F: BinaryFunction<N> + 'a>(f: F, a: N, b: N)
    ensures #[trigger] dyn_bin::<'a, N, F>(f).s_call(a, b) == f.s_call(a, b);
pub broadcast axiom fn ax_dyn_un2<'a, N, F: UnaryFunction<N> + 'a>(f: F, a: N)
    ensures #[trigger] dyn_un::<'a, N, F>(f).s_call(a) == f.s_call(a);
pub proof fn theorem_c24_bin<'a, N, F: BinaryFunction<N> + 'a>(c: DefaultContext<'a, N>, f: F, n: Seq<char>, sp: Seq<char>)
    requires c.binary_functions.m().dom().contains(lo(n)), c.binary_functions.m()[lo(n)] == dyn_bin::<'a, N, F>(f), lo(sp) == lo(n),
    ensures (c.cx().bin)(sp) is Some, forall|a: N, b: N| #[trigger] ((c.cx().bin)(sp).unwrap().f)(a, b) == f.s_call(a, b),
{ broadcast use ax_dyn_bin2; }
pub proof fn theorem_c24_un<'a, N, F: UnaryFunction<N> + 'a>(c: DefaultContext<'a, N>, f: F, n: Seq<char>, sp: Seq<char>)
    requires c.unary_functions.m().dom().contains(lo(n)), c.unary_functions.m()[lo(n)] == dyn_un::<'a, N, F>(f), lo(sp) == lo(n),
    ensures (c.cx().un)(sp) is Some, forall|a: N| #[trigger] ((c.cx().un)(sp).unwrap().f)(a) == f.s_call(a),
{ broadcast use ax_dyn_un2; }
