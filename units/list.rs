// Verus unit: eval/src/list.rs, the listing commands of the app (C22).
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {

//@ rewrite . to_string ( ) ==> . v_text ( )
//@ rewrite DefaultContext < '_ , N > ==> DefaultContext < N >
//@ rewrite N : Display , ==> N : VText ,
//@ rewrite N : Display { ==> N : VText {
//@ rewrite Complex < f64 > ==> Complex

// ---------------------------------------------------------------- texts
/// std::fmt::Display: a text determined by the value
pub trait VText { spec fn text(&self) -> Seq<char>; fn v_text(&self) -> (r: String) ensures r@ == self.text(); }
impl VText for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for String { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl<T: VText + ?Sized> VText for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for i128 { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
impl VText for f64 { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ repeat T | Decimal | Complex | Binary
#[verifier::external_body]
pub struct @T@ { _p: () }
impl VText for @T@ { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
//@ endrepeat
/// the bytes of a text (at most isize::MAX of them)
pub uninterp spec fn s_bytes(t: Seq<char>) -> nat;
pub const MAX_BYTES: usize = 0x7fff_ffff;
#[verifier::external_body]
pub fn v_bytes(t: &str) -> (r: usize) ensures r == s_bytes(t@) { unimplemented!() }
#[verifier::external_body]
pub fn v_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
/// IgnoreCaseString: a text; it derefs to str
#[verifier::external_body]
pub struct IgnoreCaseString { _p: () }
impl VText for IgnoreCaseString { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn v_text(&self) -> (r: String) { unimplemented!() } }
pub trait VName: VText { fn v_str(&self) -> (r: &str) ensures r@ == self.text(); }
impl VName for IgnoreCaseString { #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VName for String { #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }

// ---------------------------------------------------------------- the terminal: everything written so far
pub struct ColorWriter { pub out: Ghost<Seq<char>> }
impl ColorWriter {
    pub fn new() -> (r: ColorWriter) ensures r.out@ == Seq::<char>::empty() { ColorWriter { out: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn v_write<D: VText>(&mut self, data: D) ensures final(self).out@ == old(self).out@ + data.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_writeln<D: VText>(&mut self, data: D) ensures final(self).out@ == (old(self).out@ + data.text()).push('\n') { unimplemented!() }
}

// ---------------------------------------------------------------- the library's context, as far as listings read it
#[verifier::external_body]
pub struct FnObj { _p: () }
/// what is listed beside a name
pub trait Beside { spec fn beside(&self) -> Seq<char>; }
impl<N: VText> Beside for N { open spec fn beside(&self) -> Seq<char> { self.text() } }
impl FnObj {
    /// its description, empty when it has none
    pub uninterp spec fn about(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn v_description(&self) -> (r: &str) ensures r@ == self.about() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Map<K, V> { _p: core::marker::PhantomData<(K, V)> }
pub open spec fn s_widest(es: Seq<(Seq<char>, Seq<char>)>) -> nat decreases es.len() {
    if es.len() == 0 { 0 } else { let w = s_widest(es.drop_last()); let n = s_bytes(es.last().0); if n > w { n } else { w } }
}
impl<K: VName, V> Map<K, V> {
    /// std's HashMap, with its iteration order
    pub uninterp spec fn order(&self) -> Seq<(Seq<char>, V)>;
    #[verifier::external_body]
    pub fn v_entries<'t>(&'t self) -> (r: Vec<(&'t K, &'t V)>)
        ensures r@.len() == self.order().len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> self.order()[i] == (r@[i].0.text(), *r@[i].1),
    { unimplemented!() }
    /// the length of the longest name, 0 when there is none
    #[verifier::external_body]
    pub fn v_longest(&self) -> (r: usize)
        ensures r <= MAX_BYTES, forall|i: int| #![trigger self.order()[i]] 0 <= i < self.order().len() ==> s_bytes(self.order()[i].0) <= r,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct DefaultContext<N> { _p: core::marker::PhantomData<N> }
impl<N> DefaultContext<N> {
    pub uninterp spec fn s_functions(&self) -> Map<IgnoreCaseString, FnObj>;
    pub uninterp spec fn s_binary(&self) -> Map<IgnoreCaseString, FnObj>;
    pub uninterp spec fn s_unary(&self) -> Map<IgnoreCaseString, FnObj>;
    pub uninterp spec fn s_constants(&self) -> Map<IgnoreCaseString, N>;
    pub uninterp spec fn s_variables(&self) -> Map<String, N>;
    #[verifier::external_body]
    pub fn functions(&self) -> (r: &Map<IgnoreCaseString, FnObj>) ensures *r == self.s_functions() { unimplemented!() }
    #[verifier::external_body]
    pub fn binary_functions(&self) -> (r: &Map<IgnoreCaseString, FnObj>) ensures *r == self.s_binary() { unimplemented!() }
    #[verifier::external_body]
    pub fn unary_functions(&self) -> (r: &Map<IgnoreCaseString, FnObj>) ensures *r == self.s_unary() { unimplemented!() }
    #[verifier::external_body]
    pub fn constants(&self) -> (r: &Map<IgnoreCaseString, N>) ensures *r == self.s_constants() { unimplemented!() }
    #[verifier::external_body]
    pub fn variables(&self) -> (r: &Map<String, N>) ensures *r == self.s_variables() { unimplemented!() }
}
/// the library's context of a kind: 0 checked, 1 decimal, 2 complex, 3 binary, 4 unchecked
pub uninterp spec fn s_new<N>(kind: int) -> DefaultContext<N>;
impl<N> DefaultContext<N> {
    #[verifier::external_body]
    pub fn new_checked() -> (r: DefaultContext<N>) ensures r == s_new::<N>(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unchecked() -> (r: DefaultContext<N>) ensures r == s_new::<N>(4) { unimplemented!() }
}
//@ repeat T F K | Decimal new_decimal 1 | Complex new_complex 2 | Binary new_binary 3
impl DefaultContext<@T@> {
    #[verifier::external_body]
    pub fn @F@() -> (r: DefaultContext<@T@>) ensures r == s_new::<@T@>(@K@) { unimplemented!() }
}
//@ endrepeat

// ---------------------------------------------------------------- what a listing is
pub type Entries = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn s_spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
pub open spec fn s_padded(t: Seq<char>, w: int) -> Seq<char> { t + s_spaces(w - s_bytes(t)) }
/// one line per entry: the name, padded to w, what is beside it, a newline
pub open spec fn s_lines(es: Entries, w: int) -> Seq<char> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { (s_lines(es.drop_last(), w) + s_padded(es.last().0, w) + es.last().1).push('\n') }
}
/// a width that leaves at least one space after every name
pub open spec fn wide(es: Entries, w: int) -> bool { forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> s_bytes(es[i].0) < w }
pub open spec fn shows(o: Seq<char>, n: Seq<char>, es: Entries) -> bool { exists|w: int| #[trigger] wide(es, w) && n == o + s_lines(es, w) }
pub open spec fn s_docs(m: Map<IgnoreCaseString, FnObj>) -> Entries { m.order().map_values(|e: (Seq<char>, FnObj)| (e.0, e.1.about())) }
pub open spec fn s_vals<K: VName, N: VText>(m: Map<K, N>) -> Entries { m.order().map_values(|e: (Seq<char>, N)| (e.0, e.1.text())) }
pub proof fn lemma_next(es: Entries, k: int, w: int)
    requires 0 <= k < es.len(),
    ensures s_lines(es.take(k + 1), w) == (s_lines(es.take(k), w) + s_padded(es[k].0, w) + es[k].1).push('\n'),
{ assert(es.take(k + 1).drop_last() == es.take(k)); assert(es.take(k + 1).last() == es[k]); }

// ---------------------------------------------------------------- eval/src/list.rs
//@ extract eval/src/list.rs | const MIN_WIDTH
//@ end
#[derive(Clone, Copy)]
//@ extract eval/src/list.rs | enum ListKind
//@ end
//@ extract eval/src/main.rs | enum EvalType
//@ end
//@ extract eval/src/list.rs | fn pad_right
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite s . len ( ) ==> v_bytes ( & s )
//@ rewrite s . push ( $$a ) ==> v_push ( & mut s , $$a )
//@ ret r
//@ spec
        ensures r@ == s_padded(s@, width as int),
//@ start
        let ghost s0 = s@;
//@ loop 0 iter it
//@ loop 0
            invariant
                s@ == s0 + s_spaces(it.index() as int), padding as int == (if s_bytes(s0) < width { width - s_bytes(s0) } else { 0 }),
//@ loop 0 end
            proof { assert(s0 + s_spaces(it.index() as int + 1) =~= (s0 + s_spaces(it.index() as int)).push(' ')); }
//@ loop 0 after
        proof { assert(s_spaces(padding as int) =~= s_spaces(width - s_bytes(s0))); }
//@ end

//@ rewrite . description ( ) . unwrap_or_default ( ) ==> . v_description ( )
//@ rewrite . iter ( ) . map ( | ( name , _ ) | name . len ( ) ) . max ( ) . unwrap_or ( 0 ) ==> . v_longest ( )
//@ rewrite for ( $a , $b ) in $m { ==> let v_es = $m . v_entries ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ;
//@ rewrite writer . red ( ) . ==> writer .
//@ rewrite writer . green ( ) . ==> writer .
//@ rewrite writer . yellow ( ) . ==> writer .
//@ rewrite writer . blue ( ) . ==> writer .
//@ rewrite writer . magenta ( ) . ==> writer .
//@ rewrite writer . cyan ( ) . ==> writer .
//@ rewrite writer . white ( ) . ==> writer .
//@ rewrite writer . gray ( ) . ==> writer .
//@ rewrite writer . write ( ==> writer . v_write (
//@ rewrite writer . writeln ( ==> writer . v_writeln (
//@ rewrite pad_right ( name , ==> pad_right ( name . v_str ( ) ,
//@ repeat F MAP ES | list_variables s_variables s_vals | list_constants s_constants s_vals | list_functions s_functions s_docs
//@ extract eval/src/list.rs | fn @F@
//@ spec
        ensures shows(old(writer).out@, final(writer).out@, @ES@(context.@MAP@())),
//@ start
        let ghost o = writer.out@; let ghost es = @ES@(context.@MAP@()); let ghost m = context.@MAP@().order();
//@ loop 0
            invariant
                es == @ES@(context.@MAP@()), m == context.@MAP@().order(), wide(es, max_name_length as int),
                0 <= v_i <= v_es@.len(), v_es@.len() == m.len(),
                forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> m[i] == (v_es@[i].0.text(), *v_es@[i].1),
                writer.out@ == o + s_lines(es.take(v_i as int), max_name_length as int),
            decreases v_es@.len() - v_i,
//@ loop 0 start
            proof { if v_i < v_es@.len() { assert(m[v_i as int] == (v_es@[v_i as int].0.text(), *v_es@[v_i as int].1)); lemma_next(es, v_i as int, max_name_length as int); } }
//@ loop 0 end
            proof {
                let k = v_i - 1; let w = max_name_length as int;
                assert(es[k] == (v_es@[k].0.text(), es[k].1));
                assert(writer.out@ =~= (o + s_lines(es.take(k), w) + s_padded(es[k].0, w) + es[k].1).push('\n'));
                assert(writer.out@ =~= o + s_lines(es.take(v_i as int), max_name_length as int));
            }
//@ finish
        proof { assert(es.take(es.len() as int) == es); assert(wide(es, max_name_length as int)); }
//@ end
//@ endrepeat
//@ extract eval/src/list.rs | fn list_operators / struct Operator
//@ end
impl Operator {
    pub closed spec fn is(&self, e: (Seq<char>, Seq<char>)) -> bool { self.name@ == e.0 && self.description@ == e.1 }
}
/// the length of the longest name, 0 when there is none
#[verifier::external_body]
fn v_longest_op(v: &Vec<Operator>) -> (r: usize)
    ensures r <= MAX_BYTES, forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> s_bytes(v@[i].name@) <= r,
{ unimplemented!() }
//@ extract eval/src/list.rs | fn list_operators
//@ rewrite struct Operator { $$a } ==>
//@ rewrite context . $m ( ) . iter ( ) . map ( | ( $a , $b ) | $$x ) . chain ( context . $n ( ) . iter ( ) . map ( | ( $c , $d ) | $$y ) ) . collect :: < Vec < _ > > ( ) ==> { let v_es = context . $m ( ) . v_entries ( ) ; let mut v_out = Vec :: < Operator > :: new ( ) ; let mut v_i : usize = 0 ; while v_i < v_es . len ( ) { let ( $a , $b ) = v_es [ v_i ] ; v_i += 1 ; v_out . push ( $$x ) ; } let v_fs = context . $n ( ) . v_entries ( ) ; let mut v_j : usize = 0 ; while v_j < v_fs . len ( ) { let ( $c , $d ) = v_fs [ v_j ] ; v_j += 1 ; v_out . push ( $$y ) ; } v_out }
//@ rewrite operators . iter ( ) . map ( | op | op . name . len ( ) ) . max ( ) . unwrap_or ( 0 ) ==> v_longest_op ( & operators )
//@ rewrite for op in operators { ==> let mut v_k : usize = 0 ; while v_k < operators . len ( ) { let op = & operators [ v_k ] ; v_k += 1 ;
//@ rewrite v_writeln ( op . description ) ==> v_writeln ( & op . description )
//@ rewrite pad_right ( & op . name , ==> pad_right ( op . name . v_str ( ) ,
//@ spec
        ensures shows(old(writer).out@, final(writer).out@, s_docs(context.s_binary()) + s_docs(context.s_unary())),
//@ start
        let ghost o = writer.out@; let ghost es = s_docs(context.s_binary()) + s_docs(context.s_unary()); let ghost m1 = context.s_binary().order(); let ghost m2 = context.s_unary().order();
//@ loop 0
            invariant
                es == s_docs(context.s_binary()) + s_docs(context.s_unary()), m1 == context.s_binary().order(), m2 == context.s_unary().order(),
                0 <= v_i <= v_es@.len(), v_es@.len() == m1.len(), v_out@.len() == v_i,
                forall|i: int| #![trigger v_es@[i]] 0 <= i < v_es@.len() ==> m1[i] == (v_es@[i].0.text(), *v_es@[i].1),
                forall|i: int| #![trigger v_out@[i]] 0 <= i < v_i ==> v_out@[i].is(es[i]),
            decreases v_es@.len() - v_i,
//@ loop 0 start
            proof { if v_i < v_es@.len() { assert(m1[v_i as int] == (v_es@[v_i as int].0.text(), *v_es@[v_i as int].1)); } }
//@ loop 1
            invariant
                es == s_docs(context.s_binary()) + s_docs(context.s_unary()), m1 == context.s_binary().order(), m2 == context.s_unary().order(),
                0 <= v_j <= v_fs@.len(), v_fs@.len() == m2.len(), v_out@.len() == m1.len() + v_j,
                forall|i: int| #![trigger v_fs@[i]] 0 <= i < v_fs@.len() ==> m2[i] == (v_fs@[i].0.text(), *v_fs@[i].1),
                forall|i: int| #![trigger v_out@[i]] 0 <= i < v_out@.len() ==> v_out@[i].is(es[i]),
            decreases v_fs@.len() - v_j,
//@ loop 1 start
            proof { if v_j < v_fs@.len() { assert(m2[v_j as int] == (v_fs@[v_j as int].0.text(), *v_fs@[v_j as int].1)); } }
//@ loop 2 before
            proof { assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies s_bytes(es[i].0) < max_name_length by { assert(operators@[i].is(es[i])); } }
//@ loop 2
            invariant
                0 <= v_k <= operators@.len(), operators@.len() == es.len(), wide(es, max_name_length as int),
                forall|i: int| #![trigger operators@[i]] 0 <= i < operators@.len() ==> operators@[i].is(es[i]),
                writer.out@ == o + s_lines(es.take(v_k as int), max_name_length as int),
            decreases operators@.len() - v_k,
//@ loop 2 start
            proof { if v_k < operators@.len() { lemma_next(es, v_k as int, max_name_length as int); } }
//@ loop 2 end
            proof {
                let k = v_k - 1; let w = max_name_length as int;
                assert(operators@[k].is(es[k]));
                assert(writer.out@ =~= (o + s_lines(es.take(k), w) + s_padded(es[k].0, w) + es[k].1).push('\n'));
                assert(writer.out@ =~= o + s_lines(es.take(v_k as int), max_name_length as int));
            }
//@ finish
        proof { assert(es.take(es.len() as int) == es); assert(wide(es, max_name_length as int)); }
//@ end

/// what is printed: one line per name of the context's table
pub open spec fn s_listed<N: VText>(kind: ListKind, c: DefaultContext<N>) -> Entries {
    match kind {
        ListKind::Variables => s_vals(c.s_variables()),
        ListKind::Constants => s_vals(c.s_constants()),
        ListKind::Operators => s_docs(c.s_binary()) + s_docs(c.s_unary()),
        ListKind::Functions => s_docs(c.s_functions()),
    }
}
//@ extract eval/src/list.rs | fn list_with_context
//@ hdr fn list_with_context<N: VText>(list: ListKind, context: &DefaultContext<N>) -> (v_shown: Ghost<Seq<char>>)
//@ spec
        ensures shows(Seq::empty(), v_shown@, s_listed(list, *context)),
//@ finish
        Ghost(writer.out@)
//@ end
//@ extract eval/src/list.rs | fn list
//@ hdr fn v_list(eval_type: EvalType, list: ListKind) -> (v_shown: Ghost<Seq<char>>)
//@ rewrite list_with_context ( $$a ) ; ==> v_shown = list_with_context ( $$a ) ;
//@ start
        let mut v_shown: Ghost<Seq<char>> = Ghost(Seq::empty());
//@ spec
        ensures match eval_type {
            EvalType::Decimal => shows(Seq::empty(), v_shown@, s_listed(list, s_new::<Decimal>(1))),
            EvalType::Float => shows(Seq::empty(), v_shown@, s_listed(list, s_new::<f64>(4))),
            EvalType::Integer => shows(Seq::empty(), v_shown@, s_listed(list, s_new::<i128>(0))),
            EvalType::Complex => shows(Seq::empty(), v_shown@, s_listed(list, s_new::<Complex>(2))),
            EvalType::Binary => shows(Seq::empty(), v_shown@, s_listed(list, s_new::<Binary>(3))),
        },
//@ finish
        v_shown
//@ end
fn main() {}
} // verus!
