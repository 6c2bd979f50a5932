// ---------------------------------------------------------------- std (trusted)
/// `std::str::Chars`: the characters still to come
#[verifier::external_body]
pub struct VChars { p: () }
impl VChars {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().drop_first(),
            None => old(self).v().len() == 0 && final(self).v() == old(self).v() }
    { unimplemented!() }
    /// IntoIterator for an iterator
    pub fn into_iter(self) -> (r: VChars) ensures r == self { self }
}
/// `str::chars`, and `.chars().flat_map(char::to_lowercase)` collected
pub trait VText {
    spec fn t(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: VChars) ensures r.v() == self.t();
    fn v_flat_lower(&self) -> (r: Vec<char>) ensures r@ == flat(self.t());
}
impl VText for str {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_flat_lower(&self) -> (r: Vec<char>) { unimplemented!() }
}
impl VText for String {
    open spec fn t(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_chars(&self) -> (r: VChars) { unimplemented!() }
    #[verifier::external_body] fn v_flat_lower(&self) -> (r: Vec<char>) { unimplemented!() }
}
/// `char::to_lowercase`, as a sequence of characters
pub uninterp spec fn lower(c: char) -> Seq<char>;
pub open spec fn s_cmp_char(a: char, b: char) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// lexicographic order
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if s_cmp_char(a[0], b[0]) != Ordering::Equal { s_cmp_char(a[0], b[0]) }
    else { lex(a.drop_first(), b.drop_first()) }
}
/// `a.to_lowercase().partial_cmp(b.to_lowercase())` (Iterator::partial_cmp is lexicographic)
#[verifier::external_body]
pub fn v_lower_cmp(a: char, b: char) -> (r: Option<Ordering>) ensures r == Some(lex(lower(a), lower(b))) { unimplemented!() }
/// a hasher, seen as the sequence of characters fed to it
pub trait Hasher { spec fn fed(&self) -> Seq<char>; }
/// `c.hash(state)`
#[verifier::external_body]
pub fn v_hash_char<H: Hasher>(c: char, state: &mut H) ensures final(state).fed() == old(state).fed().push(c) { unimplemented!() }
pub open spec fn flat(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { lower(s[0]) + flat(s.drop_first()) } }

/// `x == Ordering::Equal` (verified)
pub assume_specification [ Ordering::is_eq ](o: Ordering) -> (r: bool) ensures r == (o is Equal);
pub trait VOrd { spec fn o(&self) -> Option<Ordering>; fn v_is_equal(&self) -> (r: bool) ensures r == (self.o() == Some(Ordering::Equal)); }
impl VOrd for Ordering { open spec fn o(&self) -> Option<Ordering> { Some(*self) } fn v_is_equal(&self) -> (r: bool) { matches!(self, Ordering::Equal) } }
impl VOrd for Option<Ordering> { open spec fn o(&self) -> Option<Ordering> { *self } fn v_is_equal(&self) -> (r: bool) { matches!(self, Some(Ordering::Equal)) } }

// ---------------------------------------------------------------- meaning
/// the name with each character lower-cased on its own
pub open spec fn lo(s: Seq<char>) -> Seq<Seq<char>> { s.map_values(|c: char| lower(c)) }
/// lexicographic order of two sequences of lower-cased characters
pub open spec fn lexs(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if lex(a[0], b[0]) != Ordering::Equal { lex(a[0], b[0]) }
    else { lexs(a.drop_first(), b.drop_first()) }
}
pub proof fn lemma_lex_eq(a: Seq<char>, b: Seq<char>)
    ensures lex(a, b) == Ordering::Equal <==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_eq(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_lexs_eq(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures lexs(a, b) == Ordering::Equal <==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_eq(a[0], b[0]);
        lemma_lexs_eq(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
/// the comparison the closures below perform
pub open spec fn closure_ok<F: Fn(char, char) -> Option<Ordering>>(f: F) -> bool {
    &&& forall|a: char, b: char| #[trigger] f.requires((a, b))
    &&& forall|a: char, b: char, r: Option<Ordering>| #[trigger] f.ensures((a, b), r) ==> r == Some(lex(lower(a), lower(b)))
}
pub proof fn lemma_lexs_step(a: Seq<char>, b: Seq<char>)
    ensures
        a.len() == 0 && b.len() == 0 ==> lexs(lo(a), lo(b)) == Ordering::Equal,
        a.len() == 0 && b.len() > 0 ==> lexs(lo(a), lo(b)) == Ordering::Less,
        a.len() > 0 && b.len() == 0 ==> lexs(lo(a), lo(b)) == Ordering::Greater,
        a.len() > 0 && b.len() > 0 && lex(lower(a[0]), lower(b[0])) != Ordering::Equal ==> lexs(lo(a), lo(b)) == lex(lower(a[0]), lower(b[0])),
        a.len() > 0 && b.len() > 0 && lex(lower(a[0]), lower(b[0])) == Ordering::Equal ==> lexs(lo(a), lo(b)) == lexs(lo(a.drop_first()), lo(b.drop_first())),
{
    if a.len() > 0 { assert(lo(a).drop_first() =~= lo(a.drop_first())); assert(lo(a)[0] == lower(a[0])); }
    if b.len() > 0 { assert(lo(b).drop_first() =~= lo(b.drop_first())); assert(lo(b)[0] == lower(b[0])); }
    assert(lo(a).len() == a.len() && lo(b).len() == b.len());
}
//@ rewrite . chars ( ) . flat_map ( char :: to_lowercase ) ==> . v_flat_lower ( )
//@ rewrite . chars ( ) ==> . v_chars ( )
//@ rewrite for c in $a . 0 . v_flat_lower ( ) { ==> let v_all = $a . 0 . v_flat_lower ( ) ; let mut v_i : usize = 0 ; while v_i < v_all . len ( ) { let c = v_all [ v_i ] ; v_i += 1 ;
//@ rewrite | a , b | { $$e } ==> | a : char , b : char | -> ( r : Option < Ordering > ) ensures r == Some ( lex ( lower ( a ) , lower ( b ) ) ) { $$e }
//@ rewrite a . to_lowercase ( ) . partial_cmp ( b . to_lowercase ( ) ) ==> v_lower_cmp ( a , b )
//@ rewrite == Ordering :: Equal ==> . v_is_equal ( )
//@ rewrite == Some ( Ordering :: Equal ) ==> . v_is_equal ( )
//@ rewrite c . hash ( state ) ==> v_hash_char ( c , state )
//@ extract prexel/src/utils/ignore_case_str.rs | fn partial_cmp_by
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite < I , O , F > ( mut iterator : I , other : O , mut partial_cmp : F ) ==> < F > ( iterator : VChars , other : VChars , partial_cmp : F )
//@ rewrite I : Iterator + Sized , O : IntoIterator , F : FnMut ( I :: Item , O :: Item ) -> Option < Ordering > ==> F : Fn ( char , char ) -> Option < Ordering >
//@ spec
        requires closure_ok(partial_cmp),
        ensures r == Some(lexs(lo(iterator.v()), lo(other.v())))
//@ start
        let mut iterator = iterator;
        let ghost a0 = iterator.v(); let ghost b0 = other.v();
//@ loop 0
        invariant closure_ok(partial_cmp), lexs(lo(a0), lo(b0)) == lexs(lo(iterator.v()), lo(other.v())),
        decreases iterator.v().len()
//@ loop 0 start
        let ghost a1 = iterator.v(); let ghost b1 = other.v();
        proof { lemma_lexs_step(a1, b1); }
//@ end
/// equality, order and hash of two names
pub open spec fn s_order(a: Seq<char>, b: Seq<char>) -> Ordering { lexs(lo(a), lo(b)) }
//@ extract prexel/src/utils/ignore_case_str.rs | fn eq_ignore_case
//@ ret r
//@ spec
        ensures r == (lo(x@) == lo(y@))
//@ start
        proof { lemma_lexs_eq(lo(x@), lo(y@)); }
//@ end
