// ---------------------------------------------------------------- std and number type (trusted)
/// `std::str::FromStr` of the number type: the result is determined by the text
pub trait FromStr: Sized {
    type Err;
    spec fn s_parse(s: Seq<char>) -> Option<Self>;
    fn from_str(s: &str) -> (r: core::result::Result<Self, Self::Err>)
        ensures match r { Ok(v) => Self::s_parse(s@) == Some(v), Err(_) => Self::s_parse(s@) is None };
}
#[verifier::external_body]
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// `s.trim().is_empty()`
#[verifier::external_body]
pub fn v_blank(s: &str) -> (r: bool) ensures r == (forall|k: int| 0 <= k < s@.len() ==> s_ws(#[trigger] s@[k])) { unimplemented!() }
pub open spec fn s_ascii(c: char) -> bool { c <= '\u{7f}' }
/// `s.len() == 1` (bytes)
#[verifier::external_body]
pub fn v_one_byte(s: &str) -> (r: bool) ensures r == (s@.len() == 1 && s_ascii(s@[0])) { unimplemented!() }
/// `s.chars().count()`
#[verifier::external_body]
pub fn v_char_count(s: &str) -> (r: usize) ensures r == s@.len() { unimplemented!() }
/// `s.chars().next()`
#[verifier::external_body]
pub fn v_char_first(s: &str) -> (r: Option<char>) ensures match r { Some(c) => s@.len() > 0 && c == s@[0], None => s@.len() == 0 } { unimplemented!() }
/// `s.chars().last()`
#[verifier::external_body]
pub fn v_char_last(s: &str) -> (r: Option<char>) ensures match r { Some(c) => s@.len() > 0 && c == s@.last(), None => s@.len() == 0 } { unimplemented!() }
pub open spec fn s_punct(c: char) -> bool { ('!' <= c <= '/') || (':' <= c <= '@') || ('[' <= c <= '`') || ('{' <= c <= '~') }
pub assume_specification [ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == s_punct(*c);
/// `String::push_str`
#[verifier::external_body]
pub fn v_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }

// ---------------------------------------------------------------- string helpers
pub trait StrExt {
    spec fn sv(&self) -> Seq<char>;
//@ extract prexel/src/utils/extensions/str_ext.rs | trait StrExt / fn single_char
//@ ret r
//@ spec
        ensures match r { Some(c) => self.sv().len() == 1 && c == self.sv()[0], None => self.sv().len() != 1 }
//@ end
}
//@ rewrite self . borrow ( ) . chars ( ) . count ( ) ==> v_char_count ( self )
//@ rewrite self . borrow ( ) . chars ( ) . next ( ) ==> v_char_first ( self )
// the blanket impl for S: Borrow<&'a str>, at S = &'a str
impl<'a> StrExt for &'a str {
    open spec fn sv(&self) -> Seq<char> { (*self)@ }
//@ extract prexel/src/utils/extensions/str_ext.rs | impl StrExt for S / fn single_char
//@ ret r
//@ vis none
//@ end
}
pub trait OptionStrExt {
    spec fn ov(&self) -> Option<Seq<char>>;
//@ extract prexel/src/utils/extensions/option_ext.rs | trait OptionStrExt / fn contains_str
//@ ret r
//@ spec
        ensures r == (self.ov() == Some(value@))
//@ end
}
impl<'a> OptionStrExt for Option<&'a String> {
    open spec fn ov(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } }
//@ extract prexel/src/utils/extensions/option_ext.rs | impl OptionStrExt for Option<&'a String> / fn contains_str
//@ ret r
//@ vis none
//@ rewrite * s == value ==> v_str_eq ( s , value )
//@ end
}

// ---------------------------------------------------------------- the classification rule (C05)
/// the piece is an operand by itself
pub open spec fn operand<N: FromStr>(cx: Cx<N>, s: Seq<char>) -> bool { N::s_parse(s) is Some || (cx.var)(s) is Some || (cx.con)(s) is Some }
pub open spec fn closing(s: Seq<char>) -> bool { s.len() == 1 && s_is_close(s[0]) }
/// the piece names a postfix operator, and no binary one
pub open spec fn postfix_only<N>(cx: Cx<N>, s: Seq<char>) -> bool { (cx.un)(s) matches Some(u) && !u.prefix && (cx.bin)(s) is None }
pub open spec fn an_operator<N>(cx: Cx<N>, s: Seq<char>) -> bool { (cx.un)(s) is Some || (cx.bin)(s) is Some }
/// an operator piece is unary: a postfix operator follows an operand or a closing symbol; a prefix operator has something
/// after it and follows nothing, an operator that is not postfix, or anything else that is not an operand or a closing symbol
/// (of the pieces that are neither operand nor operator, single characters must be punctuation)
pub open spec fn s_unary<N: FromStr>(cx: Cx<N>, prev: Option<Seq<char>>, cur: Seq<char>, next: bool) -> bool {
    match (cx.un)(cur) {
        None => false,
        Some(u) => if !u.prefix { prev matches Some(p) && (closing(p) || operand(cx, p)) }
            else { next && match prev {
                None => true,
                Some(p) => !closing(p) && !operand(cx, p) && !postfix_only(cx, p) && (an_operator(cx, p) || p.len() != 1 || s_punct(p[0])) } },
    }
}
/// the classification of piece `i`: Err, or the token (none for a retained blank) and the number of pieces it uses
pub enum Step<N> { Bad, Tok(STok<N>, nat), Blank }
pub open spec fn s_step<N: FromStr>(cx: Cx<N>, p: Seq<Seq<char>>, i: int) -> Step<N> {
    let s = p[i];
    if N::s_parse(s) is Some {
        if cx.complex && i + 1 < p.len() && p[i + 1] == seq!['i'] {
            match N::s_parse(s + p[i + 1]) { Some(m) => Step::Tok(STok::Num(m), 2), None => Step::Bad }
        } else { Step::Tok(STok::Num(N::s_parse(s).unwrap()), 1) }
    }
    else if (cx.var)(s) is Some { Step::Tok(STok::Var(s), 1) }
    else if (cx.con)(s) is Some { Step::Tok(STok::Con(s), 1) }
    else if (cx.fun)(s) is Some { Step::Tok(STok::Fun(s), 1) }
    else if an_operator(cx, s) {
        if s_unary(cx, if i == 0 { None } else { Some(p[i - 1]) }, s, i + 1 < p.len()) { Step::Tok(STok::Un(s), 1) }
        else if i == 0 || i + 1 == p.len() { Step::Bad }
        else { Step::Tok(STok::Bin(s), 1) }
    }
    else if s == seq![','] { Step::Tok(STok::Comma, 1) }
    else if s == seq![' '] { Step::Blank }
    else if s.len() == 1 && s_is_open(s[0]) { Step::Tok(STok::Open(s[0]), 1) }
    else if s.len() == 1 && s_is_close(s[0]) { Step::Tok(STok::Close(s[0]), 1) }
    else { Step::Tok(STok::Unk(s), 1) }
}
/// the tokens of the pieces from `i` on, None if one of them is an error
pub open spec fn s_toks<N: FromStr>(cx: Cx<N>, p: Seq<Seq<char>>, i: int) -> Option<Seq<STok<N>>> decreases p.len() - i {
    if i < 0 || i >= p.len() { Some(seq![]) }
    else { match s_step(cx, p, i) {
        Step::Bad => None,
        Step::Blank => s_toks(cx, p, i + 1),
        Step::Tok(t, n) => match s_toks(cx, p, if n == 2 { i + 2 } else { i + 1 }) { Some(r) => Some(seq![t] + r), None => None },
    } }
}
/// `done` followed by the tokens of the rest is the whole
pub open spec fn joined<N>(all: Option<Seq<STok<N>>>, done: Seq<STok<N>>, rest: Option<Seq<STok<N>>>) -> bool {
    match rest { Some(r) => all == Some(done + r), None => all is None }
}
pub open spec fn s_blank(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> s_ws(#[trigger] s[k]) }

//@ rewrite prev_str . chars ( ) . count ( ) ==> v_char_count ( prev_str )
//@ rewrite prev_str . chars ( ) . last ( ) ==> v_char_last ( prev_str )
//@ extract prexel/src/tokenizer.rs | fn is_unary
//@ ret r
//@ spec
        ensures r == s_unary(context.cx(), match prev { Some(p) => Some(p@), None => None }, cur@, next is Some)
//@ end

//@ extract prexel/src/tokenizer.rs | struct Tokenizer
//@ rewrite , C = DefaultContext < 'a , N > , S = DefaultSplitter < 'a > ==> , C , S
//@ rewrite splitter : ==> pub splitter :
//@ rewrite _marker : & 'a PhantomData ==> pub _marker : & 'a PhantomData
//@ end
impl<'a, N, C, S> Tokenizer<'a, N, C, S>
where
    C: Context<'a, N>,
    N: FromStr,
    S: Splitter,
{
//@ extract prexel/src/tokenizer.rs | impl Tokenizer<'a, N, C, S> / fn tokenize
//@ ret r
//@ bodyrewrite const $n : & str ==> let $n : & str
//@ rewrite expression . trim ( ) . is_empty ( ) ==> v_blank ( expression )
//@ rewrite raw_tokens . iter ( ) . enumerate ( ) . peekable ( ) ==> v_peek_enumerate ( raw_tokens . as_slice ( ) )
//@ rewrite method map
//@ rewrite method map_err
//@ rewrite string == COMMA ==> v_str_eq ( string , COMMA )
//@ rewrite string == WHITESPACE ==> v_str_eq ( string , WHITESPACE )
//@ rewrite string . len ( ) == 1 ==> v_one_byte ( string )
//@ rewrite string . chars ( ) . next ( ) ==> v_char_first ( string )
//@ rewrite temp . push_str ( im ) ==> v_push_str ( & mut temp , im )
//@ spec
        requires self.splitter.s_ok(),
        ensures match r {
            Ok(t) => !s_blank(expression@) && s_toks(context.cx(), self.splitter.s_split(expression@), 0) == Some(tvs(t@)),
            Err(_) => s_blank(expression@) || s_toks(context.cx(), self.splitter.s_split(expression@), 0) is None }
//@ loop 0 before
        let ghost p = sviews(raw_tokens@); let ghost cx = context.cx();
        let ghost all = s_toks(cx, p, 0);
        proof { assert(tvs(tokens@) =~= Seq::<STok<N>>::empty()); match all { Some(r) => { assert(tvs(tokens@) + r =~= r); } None => { } } }
//@ loop 0
        invariant iter.wf(), iter.s@ == raw_tokens@, p == sviews(raw_tokens@), p == self.splitter.s_split(expression@), cx == context.cx(), all == s_toks(cx, p, 0), COMMA == ",", WHITESPACE == " ", !s_blank(expression@),
            joined(all, tvs(tokens@), s_toks(cx, p, iter.pos as int)),
        ensures iter.pos == p.len(), joined(all, tvs(tokens@), s_toks(cx, p, p.len() as int)),
        decreases p.len() - iter.pos
//@ loop 0 start
        let ghost t0 = tokens@; let ghost i0 = pos as int;
        proof { assert(p[i0] == string@); reveal_strlit(","); reveal_strlit(" "); reveal_strlit("i");
            assert(","@ =~= seq![',']); assert(" "@ =~= seq![' ']); assert("i"@ =~= seq!['i']);
            assert(i0 + 1 < p.len() ==> p[i0 + 1] == raw_tokens@[i0 + 1]@);
            let a = tvs(t0);
            assert forall|t: Token<N>| #[trigger] tvs(t0.push(t)) == a.push(tv(t)) by { assert(tvs(t0.push(t)) =~= a.push(tv(t))); }
            assert forall|x: STok<N>, r: Seq<STok<N>>| #![trigger a.push(x), seq![x] + r] a.push(x) + r == a + (seq![x] + r) by { assert(a.push(x) + r =~= a + (seq![x] + r)); }
        }
//@ end
}
impl<'a, N, C> Tokenizer<'a, N, C, DefaultSplitter<'a>>
where
    C: Context<'a, N>,
{
//@ extract prexel/src/tokenizer.rs | impl Tokenizer<'a, N, C, DefaultSplitter<'a>> / fn new
//@ ret r
//@ spec
        ensures default_rules(r.splitter.rules@)
//@ end
}
impl<'a, N, C> Default for Tokenizer<'a, N, C, DefaultSplitter<'a>>
where
    C: Context<'a, N>,
{
//@ extract prexel/src/tokenizer.rs | impl Default for Tokenizer<'a, N, C, DefaultSplitter<'a>> / fn default
//@ ret r
//@ spec
        ensures default_rules(r.splitter.rules@)
//@ end
}
impl<'a, N, C, S> Tokenizer<'a, N, C, S>
where
    C: Context<'a, N>,
    S: Splitter,
{
//@ extract prexel/src/tokenizer.rs | impl Tokenizer<'a, N, C, S> / fn with_splitter
//@ ret r
//@ spec
        ensures r.splitter == splitter
//@ end
}
/// the sentence of C05 about operators, over the contract of is_unary
pub proof fn theorem_c05_unary<N: FromStr>(cx: Cx<N>, prev: Option<Seq<char>>, cur: Seq<char>, next: bool)
    requires (cx.un)(cur) is Some
    ensures
        // postfix: exactly after an operand or a closing symbol
        !(cx.un)(cur).unwrap().prefix ==> s_unary(cx, prev, cur, next) == (prev matches Some(p) && (operand(cx, p) || closing(p))),
        // prefix: after nothing, an opening symbol, a comma or another (not postfix) operator ..
        (cx.un)(cur).unwrap().prefix && next && prev is None ==> s_unary(cx, prev, cur, next),
        (cx.un)(cur).unwrap().prefix && next ==> (prev matches Some(p) && p.len() == 1 && (s_is_open(p[0]) || p[0] == ',') && !operand(cx, p) && !postfix_only(cx, p) ==> s_unary(cx, prev, cur, next)),
        (cx.un)(cur).unwrap().prefix && next ==> (prev matches Some(p) && an_operator(cx, p) && !postfix_only(cx, p) && !operand(cx, p) && !closing(p) ==> s_unary(cx, prev, cur, next)),
        // .. never after an operand, a closing symbol or a postfix operator, and never at the end
        (cx.un)(cur).unwrap().prefix ==> (prev matches Some(p) && (operand(cx, p) || closing(p) || postfix_only(cx, p)) ==> !s_unary(cx, prev, cur, next)),
        (cx.un)(cur).unwrap().prefix && !next ==> !s_unary(cx, prev, cur, next),
{ }
/// order of preference, text and order, over the contract of tokenize
pub proof fn theorem_c05_step<N: FromStr>(cx: Cx<N>, p: Seq<Seq<char>>, i: int)
    requires 0 <= i < p.len(), !cx.complex
    ensures
        match s_step(cx, p, i) {
            Step::Bad => an_operator(cx, p[i]) && (i == 0 || i + 1 == p.len()),
            Step::Blank => p[i] == seq![' '],
            Step::Tok(t, n) => n == 1 && match t {
                STok::Num(v) => N::s_parse(p[i]) == Some(v),
                STok::Var(x) => x == p[i], STok::Con(x) => x == p[i], STok::Fun(x) => x == p[i], STok::Bin(x) => x == p[i], STok::Un(x) => x == p[i], STok::Unk(x) => x == p[i],
                STok::Comma => p[i] == seq![','], STok::Open(c) => p[i] =~= seq![c] && s_is_open(c), STok::Close(c) => p[i] =~= seq![c] && s_is_close(c), STok::Arg(_) => false },
        },
{ }
