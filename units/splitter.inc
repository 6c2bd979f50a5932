// ---------------------------------------------------------------- std types the splitters use (trusted)
pub struct Chars;
/// `std::iter::Peekable<std::str::Chars>`: a sequence of characters still to come
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Peekable<T> { p: core::marker::PhantomData<T> }
impl Peekable<Chars> {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures *final(self) == *old(self), match r { Some(c) => old(self).v().len() > 0 && *c == old(self).v()[0], None => old(self).v().len() == 0 }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).v().len() > 0 && c == old(self).v()[0] && final(self).v() == old(self).v().drop_first(),
            None => old(self).v().len() == 0 && final(self).v() == old(self).v() }
    { unimplemented!() }
}
/// `text.chars().peekable()`
#[verifier::external_body]
pub fn v_chars(s: &str) -> (r: Peekable<Chars>) ensures r.v() == s@ { unimplemented!() }
/// `c.to_string()`
pub mod char_string { use vstd::prelude::*; verus! {
pub broadcast axiom fn axiom_char_to_string(c: char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, s) ==> s@ == seq![c];
} }
broadcast use char_string::axiom_char_to_string;
/// Unicode White_Space
pub open spec fn s_ws(c: char) -> bool {
    ('\u{9}' <= c <= '\u{d}') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c <= '\u{200a}')
        || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}' || c == '\u{205f}' || c == '\u{3000}'
}
pub assume_specification [ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == s_digit(*c);
// not called by the tree; for code that is rewritten in terms of them
pub assume_specification [ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == (('a' <= *c <= 'z') || ('A' <= *c <= 'Z'));
pub assume_specification [ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == (('a' <= *c <= 'z') || ('A' <= *c <= 'Z') || s_digit(*c));
pub uninterp spec fn s_u_alpha(c: char) -> bool;
pub uninterp spec fn s_u_num(c: char) -> bool;
pub assume_specification [ char::is_alphabetic ](c: char) -> (r: bool) ensures r == s_u_alpha(c);
pub assume_specification [ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == (s_u_alpha(c) || s_u_num(c));
pub assume_specification [ char::is_numeric ](c: char) -> (r: bool) ensures r == s_u_num(c);
/// unsizing a boxed rule to `dyn SplitRule` keeps its behaviour
#[verifier::external_body]
pub fn v_box<'a, F: SplitRule + 'a>(f: F) -> (r: Box<dyn SplitRule + 'a>)
    ensures forall|c: char, rest: Seq<char>| #[trigger] r.s_out(c, rest) == f.s_out(c, rest), forall|c: char, rest: Seq<char>| #[trigger] r.s_len(c, rest) == f.s_len(c, rest)
{ unimplemented!() }
/// `char` has a deterministic hash and a lawful equality
#[verifier::external_body]
pub proof fn axiom_char_key() ensures vstd::std_specs::hash::obeys_key_model::<char>() { }
/// `HashSet::from(array)`
#[verifier::external_body]
pub fn v_set_from<const K: usize>(a: [char; K]) -> (r: HashSet<char>)
    ensures forall|c: char| #[trigger] r@.contains(c) <==> a@.contains(c)
{ unimplemented!() }

// ---------------------------------------------------------------- character classes and runs
pub open spec fn s_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn s_alpha(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') || c == '_' }
pub open spec fn s_ident(c: char) -> bool { s_alpha(c) || s_digit(c) }
pub open spec fn s_opch(c: char) -> bool {
    c == '~' || c == '`' || c == '!' || c == '@' || c == '#' || c == '$' || c == '%' || c == '^' || c == '&' || c == '*' || c == '-' || c == '+' || c == '_'
        || c == ':' || c == ';' || c == '"' || c == '\'' || c == '|' || c == '\\' || c == '?' || c == '.' || c == '<' || c == '>' || c == '/' || c == '=' || c == ','
}
/// length of the longest prefix of `s` whose characters all satisfy `p`
pub open spec fn run(p: spec_fn(char) -> bool, s: Seq<char>) -> nat decreases s.len() {
    if s.len() > 0 && p(s[0]) { 1 + run(p, s.drop_first()) } else { 0 }
}
/// length of the longest prefix of `s` made of digits and at most one (if `dot`: no) decimal point
pub open spec fn num_run(s: Seq<char>, dot: bool) -> nat decreases s.len() {
    if s.len() > 0 && s_digit(s[0]) { 1 + num_run(s.drop_first(), dot) }
    else if s.len() > 0 && s[0] == '.' && !dot { 1 + num_run(s.drop_first(), true) }
    else { 0 }
}
pub proof fn lemma_run(p: spec_fn(char) -> bool, s: Seq<char>)
    ensures run(p, s) <= s.len(), forall|k: int| 0 <= k < run(p, s) ==> p(#[trigger] s[k]), run(p, s) < s.len() ==> !p(s[run(p, s) as int])
    decreases s.len()
{
    if s.len() > 0 && p(s[0]) {
        lemma_run(p, s.drop_first());
        assert forall|k: int| 0 <= k < run(p, s) implies p(#[trigger] s[k]) by { if k > 0 { assert(s[k] == s.drop_first()[k - 1]); } }
    }
}
pub open spec fn is_dot() -> spec_fn(char) -> bool { |c: char| c == '.' }
pub proof fn lemma_num_run(s: Seq<char>, dot: bool)
    ensures num_run(s, dot) <= s.len(), forall|k: int| 0 <= k < num_run(s, dot) ==> s_digit(#[trigger] s[k]) || s[k] == '.',
        // at most one decimal point
        forall|j: int, k: int| 0 <= j < k < num_run(s, dot) ==> !(#[trigger] s[j] == '.' && #[trigger] s[k] == '.'),
        dot ==> forall|k: int| 0 <= k < num_run(s, dot) ==> #[trigger] s[k] != '.',
        // it cannot be extended
        num_run(s, dot) < s.len() ==> !s_digit(s[num_run(s, dot) as int])
            && (s[num_run(s, dot) as int] == '.' ==> dot || exists|k: int| 0 <= k < num_run(s, dot) && #[trigger] s[k] == '.'),
    decreases s.len()
{
    if s.len() > 0 && (s_digit(s[0]) || (s[0] == '.' && !dot)) {
        let t = s.drop_first(); let d2 = dot || s[0] == '.';
        lemma_num_run(t, d2);
        assert forall|k: int| 0 <= k < num_run(s, dot) implies s_digit(#[trigger] s[k]) || s[k] == '.' by { if k > 0 { assert(s[k] == t[k - 1]); } }
        assert forall|j: int, k: int| 0 <= j < k < num_run(s, dot) implies !(#[trigger] s[j] == '.' && #[trigger] s[k] == '.') by {
            assert(s[k] == t[k - 1]); if j > 0 { assert(s[j] == t[j - 1]); }
        }
        if dot { assert forall|k: int| 0 <= k < num_run(s, dot) implies #[trigger] s[k] != '.' by { if k > 0 { assert(s[k] == t[k - 1]); } } }
        let n = num_run(s, dot) as int;
        if n < s.len() && s[n] == '.' && !dot {
            if s[0] != '.' {
                assert(t[n - 1] == '.');
                let k = choose|k: int| 0 <= k < num_run(t, d2) && #[trigger] t[k] == '.';
                assert(s[k + 1] == '.');
            } else { assert(s[0] == '.'); }
        }
    }
}

// ---------------------------------------------------------------- rules
//@ extract prexel/src/utils/splitter.rs | mod rules / enum Outcome
//@ end
pub enum Out { Data(Seq<char>), Cont, Skip }
pub open spec fn ov(o: Outcome) -> Out { match o { Outcome::Data(s) => Out::Data(s@), Outcome::Continue => Out::Cont, Outcome::Skip => Out::Skip } }
/// `c` and the next `n` characters as one piece
pub open spec fn piece(c: char, rest: Seq<char>, n: nat) -> Seq<char> { seq![c] + rest.take(n as int) }
pub trait SplitRule {
    /// what the rule answers for `c` followed by `rest`, and how many characters of `rest` it takes
    spec fn s_out(&self, c: char, rest: Seq<char>) -> Out;
    spec fn s_len(&self, c: char, rest: Seq<char>) -> nat;
//@ extract prexel/src/utils/splitter.rs | mod rules / trait SplitRule / fn split
//@ ret r
//@ spec
        ensures ov(r) == self.s_out(c, old(rest).v()), self.s_len(c, old(rest).v()) <= old(rest).v().len(),
            final(rest).v() == old(rest).v().skip(self.s_len(c, old(rest).v()) as int),
//@ end
}
pub open spec fn run_inv(p: spec_fn(char) -> bool, c: char, old_rest: Seq<char>, rest: Seq<char>, temp: Seq<char>) -> bool {
    let k = old_rest.len() - rest.len();
    &&& 0 <= k <= old_rest.len() && rest == old_rest.skip(k) && temp == piece(c, old_rest, k as nat) && run(p, old_rest) == k + run(p, rest)
}
pub proof fn lemma_run_step(p: spec_fn(char) -> bool, c: char, old_rest: Seq<char>, rest: Seq<char>, temp: Seq<char>)
    requires run_inv(p, c, old_rest, rest, temp), rest.len() > 0, p(rest[0])
    ensures run_inv(p, c, old_rest, rest.drop_first(), temp.push(rest[0]))
{
    let k = old_rest.len() - rest.len();
    assert(rest.drop_first() =~= old_rest.skip(k + 1));
    assert(temp.push(rest[0]) =~= piece(c, old_rest, (k + 1) as nat));
}
pub open spec fn p_ident() -> spec_fn(char) -> bool { |c: char| s_ident(c) }
pub open spec fn p_op() -> spec_fn(char) -> bool { |c: char| s_opch(c) }
pub open spec fn p_digit() -> spec_fn(char) -> bool { |c: char| s_digit(c) }

//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitIdentifier
//@ end
impl SplitRule for SplitIdentifier {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if s_alpha(c) { Out::Data(piece(c, rest, run(p_ident(), rest))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if s_alpha(c) { run(p_ident(), rest) } else { 0 } }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SplitIdentifier / fn split
//@ ret r
//@ vis none
//@ rewrite method next_if
//@ nested is_valid_char r
        ensures r == s_ident(*c)
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_run(p_ident(), r0); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(temp@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant run_inv(p_ident(), c0, r0, rest.v(), temp@),
        ensures run_inv(p_ident(), c0, r0, rest.v(), temp@), rest.v().len() == 0 || !s_ident(rest.v()[0]),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = temp@; let ghost q = seq![c] + rest.v();
        proof {
            assert(exists|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(p_ident(), c0, r0, w, t1));
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(p_ident(), c0, r0, w, t1);
            lemma_run_step(p_ident(), c0, r0, w, t1);
        }
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitNumeric
//@ end
pub open spec fn num_inv(c: char, old_rest: Seq<char>, rest: Seq<char>, temp: Seq<char>, dot: bool) -> bool {
    let k = old_rest.len() - rest.len();
    &&& 0 <= k <= old_rest.len() && rest == old_rest.skip(k) && temp == piece(c, old_rest, k as nat) && num_run(old_rest, false) == k + num_run(rest, dot)
}
pub proof fn lemma_num_step(c: char, old_rest: Seq<char>, rest: Seq<char>, temp: Seq<char>, dot: bool)
    requires num_inv(c, old_rest, rest, temp, dot), rest.len() > 0, s_digit(rest[0]) || (rest[0] == '.' && !dot)
    ensures num_inv(c, old_rest, rest.drop_first(), temp.push(rest[0]), dot || rest[0] == '.')
{
    let k = old_rest.len() - rest.len();
    assert(rest.drop_first() =~= old_rest.skip(k + 1));
    assert(temp.push(rest[0]) =~= piece(c, old_rest, (k + 1) as nat));
}
impl SplitRule for SplitNumeric {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if s_digit(c) { Out::Data(piece(c, rest, num_run(rest, false))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if s_digit(c) { num_run(rest, false) } else { 0 } }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SplitNumeric / fn split
//@ ret r
//@ vis none
//@ rewrite method next_if
//@ nested is_valid_char r
        ensures r == (s_digit(*c) || *c == '.')
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_num_run(r0, false); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(temp@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant num_inv(c0, r0, rest.v(), temp@, has_decimal_point),
        ensures num_inv(c0, r0, rest.v(), temp@, has_decimal_point), rest.v().len() == 0 || !(s_digit(rest.v()[0]) || (rest.v()[0] == '.' && !has_decimal_point)),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = temp@; let ghost d1 = has_decimal_point;
        proof {
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && num_inv(c0, r0, w, t1, d1);
            lemma_num_step(c0, r0, w, t1, d1);
        }
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitOperator
//@ end
impl SplitRule for SplitOperator {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if s_opch(c) { Out::Data(piece(c, rest, run(p_op(), rest))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if s_opch(c) { run(p_op(), rest) } else { 0 } }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SplitOperator / fn split
//@ ret r
//@ vis none
//@ rewrite method next_if
//@ nested is_valid_char r
        ensures r == s_opch(*c)
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_run(p_op(), r0); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(temp@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant run_inv(p_op(), c0, r0, rest.v(), temp@),
        ensures run_inv(p_op(), c0, r0, rest.v(), temp@), rest.v().len() == 0 || !s_opch(rest.v()[0]),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = temp@;
        proof {
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(p_op(), c0, r0, w, t1);
            lemma_run_step(p_op(), c0, r0, w, t1);
        }
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SkipWhitespace
//@ end
impl SplitRule for SkipWhitespace {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if s_ws(c) { Out::Skip } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { 0 }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SkipWhitespace / fn split
//@ ret r
//@ vis none
//@ rewrite _ : & mut Peekable < Chars > ==> rest : & mut Peekable < Chars >
//@ start
        let ghost r0 = rest.v();
        proof { assert(r0.skip(0) =~= r0); }
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitBinary
//@ end
pub open spec fn s_bin(c: char, rest: Seq<char>) -> bool { c == 'b' && rest.len() > 0 && (rest[0] == '0' || rest[0] == '1') }
impl SplitRule for SplitBinary {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if s_bin(c, rest) { Out::Data(piece(c, rest, run(p_digit(), rest))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if s_bin(c, rest) { run(p_digit(), rest) } else { 0 } }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SplitBinary / fn split
//@ ret r
//@ vis none
//@ nested is_next_binary r
        ensures *final(chars) == *old(chars), r == (old(chars).v().len() > 0 && (old(chars).v()[0] == '0' || old(chars).v()[0] == '1'))
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_run(p_digit(), r0); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(temp@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant run_inv(p_digit(), c0, r0, rest.v(), temp@),
        ensures run_inv(p_digit(), c0, r0, rest.v(), temp@), rest.v().len() == 0 || !s_digit(rest.v()[0]),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = temp@;
//@ after rest.next();
        proof {
            let w = r0.skip(t1.len() - 1);
            assert(run_inv(p_digit(), c0, r0, w, t1));
            lemma_run_step(p_digit(), c0, r0, w, t1);
        }
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitWithOperatorsBuilder
//@ rewrite operators : ==> pub operators :
//@ end
//@ fnset prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder | new empty add_operator except build
impl SplitWithOperatorsBuilder {
    /// the set of operator characters
    pub open spec fn has(&self, c: char) -> bool { self.operators@.contains(c) }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder / fn new
//@ ret r
//@ rewrite HashSet::from( ==> v_set_from(
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == s_opch(c)
//@ finish
//@ before SplitWithOperatorsBuilder { operators }
        proof {
            let a = seq!['~', '`', '!', '@', '#', '$', '%', '^', '&', '*', '-', '+', '_', ':', ';', '"', '\'', '|', '\\', '?', '.', '<', '>', '/', '=', ','];
            assert forall|c: char| #[trigger] operators@.contains(c) == s_opch(c) by {
                assert(a[0] == '~' && a[1] == '`' && a[2] == '!' && a[3] == '@' && a[4] == '#' && a[5] == '$' && a[6] == '%' && a[7] == '^' && a[8] == '&' && a[9] == '*'
                    && a[10] == '-' && a[11] == '+' && a[12] == '_' && a[13] == ':' && a[14] == ';' && a[15] == '"' && a[16] == '\'' && a[17] == '|' && a[18] == '\\'
                    && a[19] == '?' && a[20] == '.' && a[21] == '<' && a[22] == '>' && a[23] == '/' && a[24] == '=' && a[25] == ',');
                if s_opch(c) { assert(exists|k: int| 0 <= k < a.len() && a[k] == c); assert(a.contains(c)); }
            }
        }
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder / fn empty
//@ ret r
//@ spec
        ensures forall|c: char| !(#[trigger] r.has(c))
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder / fn add_operator
//@ ret r
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == (old(self).has(c) || c == operator), *final(self) == *final(r)
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        proof { axiom_char_key(); }
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder / fn except
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == (self.has(c) && c != operator)
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        proof { axiom_char_key(); }
        let mut v_self = self;
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperatorsBuilder / fn build
//@ ret r
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == self.has(c)
//@ end
}
//@ extract prexel/src/utils/splitter.rs | mod rules / struct SplitWithOperators
//@ rewrite operators : ==> pub operators :
//@ end
//@ fnset prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperators | new builder is_valid
impl SplitWithOperators {
    pub open spec fn has(&self, c: char) -> bool { self.operators@.contains(c) }
    pub open spec fn p(&self) -> spec_fn(char) -> bool { |c: char| self.has(c) }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperators / fn new
//@ ret r
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == s_opch(c)
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperators / fn builder
//@ ret r
//@ spec
        ensures forall|c: char| #[trigger] r.has(c) == s_opch(c)
//@ end
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitWithOperators / fn is_valid
//@ ret r
//@ spec
        ensures r == self.has(*c)
//@ start
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        proof { axiom_char_key(); }
//@ end
}
impl SplitRule for SplitWithOperators {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if self.has(c) { Out::Data(piece(c, rest, run(self.p(), rest))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if self.has(c) { run(self.p(), rest) } else { 0 } }
//@ extract prexel/src/utils/splitter.rs | mod rules / impl SplitRule for SplitWithOperators / fn split
//@ ret r
//@ vis none
//@ rewrite method next_if
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_run(self.p(), r0); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(temp@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant run_inv(self.p(), c0, r0, rest.v(), temp@),
        ensures run_inv(self.p(), c0, r0, rest.v(), temp@), rest.v().len() == 0 || !self.has(rest.v()[0]),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = temp@;
        proof {
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(self.p(), c0, r0, w, t1);
            lemma_run_step(self.p(), c0, r0, w, t1);
        }
//@ end
}

// ---------------------------------------------------------------- the splitter
pub mod rules { pub use super::*; }
#[derive(Copy, Clone)]
//@ extract prexel/src/utils/splitter.rs | enum SplitWhitespaceOption
//@ end
//@ extract prexel/src/utils/splitter.rs | struct DefaultSplitter
//@ rewrite rules : ==> pub rules :
//@ end
//@ extract prexel/src/utils/splitter.rs | struct DefaultSplitterBuilder
//@ rewrite rules : ==> pub rules :
//@ rewrite whitespace_option : ==> pub whitespace_option :
//@ end
/// the first rule at or after `k` that does not answer Continue (or the number of rules)
pub open spec fn first_rule<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, c: char, rest: Seq<char>, k: nat) -> nat decreases rules.len() - k {
    if k >= rules.len() { rules.len() } else if rules[k as int].s_out(c, rest) is Cont { first_rule(rules, c, rest, k + 1) } else { k }
}
/// a rule that answers Continue takes nothing
pub open spec fn cont_ok<'a>(rules: Seq<Box<dyn SplitRule + 'a>>) -> bool {
    forall|k: int, c: char, rest: Seq<char>| 0 <= k < rules.len() && #[trigger] rules[k].s_out(c, rest) is Cont ==> rules[k].s_len(c, rest) == 0
}
pub open spec fn step_len<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, s: Seq<char>) -> nat {
    let k = first_rule(rules, s[0], s.drop_first(), 0);
    if k < rules.len() { rules[k as int].s_len(s[0], s.drop_first()) } else { 0 }
}
pub open spec fn step_out<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, s: Seq<char>) -> Seq<Seq<char>> {
    let k = first_rule(rules, s[0], s.drop_first(), 0);
    if k < rules.len() { match rules[k as int].s_out(s[0], s.drop_first()) { Out::Data(d) => seq![d], _ => seq![] } } else { seq![seq![s[0]]] }
}
/// the pieces of `s`
pub open spec fn pieces<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if step_len(rules, s) >= s.len() { seq![] } // no rule may take more than there is
    else { step_out(rules, s) + pieces(rules, s.drop_first().skip(step_len(rules, s) as int)) }
}
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub trait Splitter {
    spec fn s_ok(&self) -> bool;
    spec fn s_split(&self, s: Seq<char>) -> Seq<Seq<char>>;
//@ extract prexel/src/utils/splitter.rs | trait Splitter / fn split_into_tokens
//@ ret r
//@ spec
        requires self.s_ok(),
        ensures sviews(r@) == self.s_split(expression@)
//@ end
}
impl Splitter for DefaultSplitter<'_> {
    open spec fn s_ok(&self) -> bool { cont_ok(self.rules@) }
    open spec fn s_split(&self, s: Seq<char>) -> Seq<Seq<char>> { pieces(self.rules@, s) }
//@ extract prexel/src/utils/splitter.rs | impl Splitter for DefaultSplitter<'_> / fn split_into_tokens
//@ ret r
//@ vis none
//@ rewrite expression . chars ( ) . peekable ( ) ==> v_chars ( expression )
//@ rewrite for rule in & self . rules { ==> let mut v_i : usize = 0 ; while v_i < self . rules . len ( ) { let rule = & self . rules [ v_i ] ; v_i += 1 ;
//@ loop 0 before
        let ghost all = pieces(self.rules@, expression@);
        proof { assert(sviews(tokens@) =~= Seq::<Seq<char>>::empty()); assert(sviews(tokens@) + pieces(self.rules@, iterator.v()) =~= all); }
//@ loop 0
        invariant cont_ok(self.rules@), sviews(tokens@) + pieces(self.rules@, iterator.v()) == all,
        ensures sviews(tokens@) + pieces(self.rules@, iterator.v()) == all, iterator.v().len() == 0,
        decreases iterator.v().len()
//@ loop 1 before
        let ghost rest0 = iterator.v(); let ghost t0 = tokens@; let ghost s0 = seq![c] + rest0;
        proof {
            assert(exists|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest0 && sviews(t0) + #[trigger] pieces(self.rules@, w) == all);
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest0 && sviews(t0) + #[trigger] pieces(self.rules@, w) == all;
            assert(w =~= s0); assert(s0.drop_first() =~= rest0); assert(rest0.skip(0) =~= rest0);
        }
//@ loop 1
        invariant_except_break !next, v_i <= self.rules@.len(), tokens@ == t0, iterator.v() == rest0, first_rule(self.rules@, c, rest0, 0) == first_rule(self.rules@, c, rest0, v_i as nat),
        invariant cont_ok(self.rules@), s0.len() > 0, rest0 == s0.drop_first(), c == s0[0],
        ensures next ==> sviews(tokens@) =~= sviews(t0) + step_out(self.rules@, s0) && iterator.v() == rest0.skip(step_len(self.rules@, s0) as int) && step_len(self.rules@, s0) < s0.len(),
            !next ==> first_rule(self.rules@, c, rest0, 0) == self.rules@.len() && tokens@ == t0 && iterator.v() == rest0,
        decreases self.rules@.len() - v_i
//@ loop 1 start
        proof { assert(rest0.skip(0) =~= rest0); }
//@ loop 0 end
        proof {
            assert(rest0.skip(0) =~= rest0);
            assert(sviews(tokens@) =~= sviews(t0) + step_out(self.rules@, s0));
            assert(iterator.v() == rest0.skip(step_len(self.rules@, s0) as int));
            assert(sviews(tokens@) + pieces(self.rules@, iterator.v()) =~= sviews(t0) + pieces(self.rules@, s0));
        }
//@ end
}
//@ fnset prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> | new insert_rule rule whitespace build
//@ fnset prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> | new with_numeric_rule with_identifier_rule builder rules
pub open spec fn same_rule<'a>(a: Box<dyn SplitRule + 'a>, b: Box<dyn SplitRule + 'a>) -> bool { a == b }
/// rule `k` of `rules` answers as `f` does
pub open spec fn acts<'a, F: SplitRule + 'a>(rules: Seq<Box<dyn SplitRule + 'a>>, k: int, f: F) -> bool {
    &&& forall|c: char, rest: Seq<char>| #[trigger] rules[k].s_out(c, rest) == f.s_out(c, rest)
    &&& forall|c: char, rest: Seq<char>| #[trigger] rules[k].s_len(c, rest) == f.s_len(c, rest)
}
impl<'a> DefaultSplitterBuilder<'a> {
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> / fn new
//@ ret r
//@ spec
        ensures r.rules@.len() == 0, r.whitespace_option is None
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> / fn insert_rule
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ rewrite Box::new( ==> v_box(
//@ spec
        requires index <= self.rules@.len(),
        ensures r.whitespace_option == self.whitespace_option, r.rules@.len() == self.rules@.len() + 1, acts(r.rules@, index as int, rule),
            forall|k: int| 0 <= k < index ==> #[trigger] r.rules@[k] == self.rules@[k],
            forall|k: int| index < k < r.rules@.len() ==> #[trigger] r.rules@[k] == self.rules@[k - 1],
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> / fn rule
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ rewrite Box::new( ==> v_box(
//@ spec
        ensures r.whitespace_option == self.whitespace_option, r.rules@.len() == self.rules@.len() + 1, acts(r.rules@, self.rules@.len() as int, rule),
            forall|k: int| 0 <= k < self.rules@.len() ==> #[trigger] r.rules@[k] == self.rules@[k],
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> / fn whitespace
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures r.rules == self.rules, r.whitespace_option == Some(option)
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitterBuilder<'a> / fn build
//@ ret r
//@ rewrite Box::new( ==> v_box(
//@ spec
        ensures
            self.whitespace_option == Some(SplitWhitespaceOption::Remove) ==> r.rules@.len() == self.rules@.len() + 1 && acts(r.rules@, self.rules@.len() as int, SkipWhitespace),
            self.whitespace_option != Some(SplitWhitespaceOption::Remove) ==> r.rules@.len() == self.rules@.len(),
            forall|k: int| 0 <= k < self.rules@.len() ==> #[trigger] r.rules@[k] == self.rules@[k],
//@ end
}
impl Default for DefaultSplitterBuilder<'_> {
//@ extract prexel/src/utils/splitter.rs | impl Default for DefaultSplitterBuilder<'_> / fn default
//@ ret r
//@ spec
        ensures r.rules@.len() == 0, r.whitespace_option is None
//@ end
}
impl Default for DefaultSplitter<'_> {
//@ extract prexel/src/utils/splitter.rs | impl Default for DefaultSplitter<'_> / fn default
//@ ret r
//@ spec
        ensures r.rules@.len() == 4, acts(r.rules@, 0, SplitNumeric), acts(r.rules@, 1, SplitIdentifier), acts(r.rules@, 2, SplitOperator), acts(r.rules@, 3, SkipWhitespace)
//@ end
}
impl<'a> DefaultSplitter<'a> {
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> / fn new
//@ ret r
//@ spec
        ensures r.rules@.len() == (if kind is Remove { 4int } else { 3 }), acts(r.rules@, 0, SplitNumeric), acts(r.rules@, 1, SplitIdentifier), acts(r.rules@, 2, SplitOperator),
            kind is Remove ==> acts(r.rules@, 3, SkipWhitespace),
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> / fn with_numeric_rule
//@ ret r
//@ spec
        ensures r.rules@.len() == 4, acts(r.rules@, 0, rule), acts(r.rules@, 1, SplitIdentifier), acts(r.rules@, 2, SplitOperator), acts(r.rules@, 3, SkipWhitespace)
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> / fn with_identifier_rule
//@ ret r
//@ spec
        ensures r.rules@.len() == 5, acts(r.rules@, 0, SplitNumeric), acts(r.rules@, 1, rule), acts(r.rules@, 2, SplitIdentifier), acts(r.rules@, 3, SplitOperator), acts(r.rules@, 4, SkipWhitespace)
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> / fn builder
//@ ret r
//@ spec
        ensures r.rules@.len() == 0, r.whitespace_option is None
//@ end
//@ extract prexel/src/utils/splitter.rs | impl DefaultSplitter<'a> / fn rules
//@ ret r
//@ spec
        ensures r@ == self.rules@
//@ end
}
pub open spec fn default_rules<'a>(r: Seq<Box<dyn SplitRule + 'a>>) -> bool {
    r.len() == 4 && acts(r, 0, SplitNumeric) && acts(r, 1, SplitIdentifier) && acts(r, 2, SplitOperator) && acts(r, 3, SkipWhitespace)
}
pub open spec fn binary_rules<'a>(r: Seq<Box<dyn SplitRule + 'a>>) -> bool {
    r.len() == 5 && acts(r, 0, SplitBinary) && acts(r, 1, SplitNumeric) && acts(r, 2, SplitIdentifier) && acts(r, 3, SplitOperator) && acts(r, 4, SkipWhitespace)
}
