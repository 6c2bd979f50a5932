// ---------------------------------------------------------------- maps (trusted: a map keyed by the equality of its keys, C06)
/// what a key is compared by
pub trait VKey: Sized { type K; spec fn k(&self) -> Self::K; spec fn tx(&self) -> Seq<char>; fn v_text(&self) -> (r: &str) ensures r@ == self.tx(); }
impl VKey for String {
    type K = Seq<char>;
    open spec fn k(&self) -> Seq<char> { self@ }
    open spec fn tx(&self) -> Seq<char> { self@ }
    fn v_text(&self) -> (r: &str) { self.as_str() }
}
impl VKey for IgnoreCaseString {
    type K = Seq<Seq<char>>;
    open spec fn k(&self) -> Seq<Seq<char>> { lo(self.0@) }
    open spec fn tx(&self) -> Seq<char> { self.0@ }
    fn v_text(&self) -> (r: &str) { self.as_str() }
}
/// what a map may be asked with
pub trait VQuery<Q: VKey> { spec fn q(&self) -> Q::K; }
impl VQuery<String> for str { open spec fn q(&self) -> Seq<char> { self@ } }
impl VQuery<IgnoreCaseString> for IgnoreCaseString { open spec fn q(&self) -> Seq<Seq<char>> { lo(self.0@) } }
/// HashMap / LinkedHashMap: a finite map; a key keeps the spelling it was first inserted with
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Map<K: VKey, V> { p: std::marker::PhantomData<(K, V)> }
impl<K: VKey, V> Map<K, V> {
    pub uninterp spec fn m(&self) -> vstd::imap::IMap<K::K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.m() == vstd::imap::IMap::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VQuery<K> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self.m().dom().contains(q.q()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VQuery<K> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self.m().dom().contains(q.q()) && self.m()[q.q()] == *v, None => !self.m().dom().contains(q.q()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k.k(), v),
            r == (if old(self).m().dom().contains(k.k()) { Some(old(self).m()[k.k()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: VKeys<'_, K>)
        ensures forall|i: int| 0 <= i < r.keys@.len() ==> self.m().dom().contains((#[trigger] r.keys@[i]).k()),
            forall|k: K::K| #[trigger] self.m().dom().contains(k) ==> exists|i: int| 0 <= i < r.keys@.len() && (#[trigger] r.keys@[i]).k() == k
    { unimplemented!() }
}
/// `map.keys()`; `any` is verified
pub struct VKeys<'s, K> { pub keys: Vec<&'s K> }
impl<'s, K: VKey> VKeys<'s, K> {
    pub fn v_any<F: Fn(&K) -> bool>(self, f: F) -> (r: bool)
        requires forall|k: &K| #[trigger] f.requires((k,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.keys@.len() && f.ensures((#[trigger] self.keys@[i],), true),
            !r ==> forall|i: int| 0 <= i < self.keys@.len() ==> f.ensures((#[trigger] self.keys@[i],), false),
    {
        let mut i: usize = 0;
        while i < self.keys.len()
            invariant i <= self.keys@.len(), forall|k: &K| #[trigger] f.requires((k,)),
                forall|j: int| 0 <= j < i ==> #[trigger] f.ensures((self.keys@[j],), false),
            decreases self.keys@.len() - i
        {
            if f(self.keys[i]) { return true; }
            i += 1;
        }
        false
    }
}
/// `x.to_string()` for `&str`
#[verifier::external_body]
pub fn v_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
// ---------------------------------------------------------------- functions as dynamic objects (trusted unsizing)
pub uninterp spec fn dyn_fun<'a, N, F: Function<N>>(f: F) -> Rc<dyn Function<N> + 'a>;
pub uninterp spec fn dyn_un<'a, N, F: UnaryFunction<N> + 'a>(f: F) -> Rc<dyn UnaryFunction<N> + 'a>;
pub uninterp spec fn dyn_bin<'a, N, F: BinaryFunction<N> + 'a>(f: F) -> Rc<dyn BinaryFunction<N> + 'a>;
#[verifier::external_body]
pub fn v_dyn_fun<'a, N, F: Function<N> + 'a>(f: &Rc<F>) -> (r: Rc<dyn Function<N> + 'a>)
    ensures r == dyn_fun::<N, F>(**f), forall|a: Seq<N>| #[trigger] r.s_call(a) == f.s_call(a) { unimplemented!() }
#[verifier::external_body]
pub fn v_dyn_un<'a, N, F: UnaryFunction<N> + 'a>(f: &Rc<F>) -> (r: Rc<dyn UnaryFunction<N> + 'a>)
    ensures r == dyn_un::<N, F>(**f), r.s_notation() == f.s_notation(), forall|a: N| #[trigger] r.s_call(a) == f.s_call(a) { unimplemented!() }
#[verifier::external_body]
pub fn v_dyn_bin<'a, N, F: BinaryFunction<N> + 'a>(f: &Rc<F>) -> (r: Rc<dyn BinaryFunction<N> + 'a>)
    ensures r == dyn_bin::<N, F>(**f), r.s_prec() == f.s_prec(), r.s_assoc() == f.s_assoc(), forall|a: N, b: N| #[trigger] r.s_call(a, b) == f.s_call(a, b) { unimplemented!() }
// ---------------------------------------------------------------- name validation
//@ extract prexel/src/context.rs | mod validate / enum TokenKind
//@ end
/// whether a name passes validation (only performed in builds with debug assertions)
pub uninterp spec fn s_debug_build() -> bool;
pub open spec fn s_name_ok(s: Seq<char>) -> bool { !s_blank(s) && (forall|i: int| 0 <= i < s.len() ==> !s_ws(#[trigger] s[i])) && (forall|i: int| 0 <= i < s.len() ==> !s_control(#[trigger] s[i])) }
pub open spec fn s_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s_ws(#[trigger] s[i]) }
pub uninterp spec fn s_ws(c: char) -> bool;
pub uninterp spec fn s_control(c: char) -> bool;
pub open spec fn s_valid(s: Seq<char>) -> bool { s_debug_build() ==> s_name_ok(s) }
#[verifier::external_body]
pub fn v_trim_is_empty(s: &str) -> (r: bool) ensures r == s_blank(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_any_whitespace(s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && s_ws(#[trigger] s@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn v_any_control(s: &str) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && s_control(#[trigger] s@[i]) { unimplemented!() }
//@ rewrite name . trim ( ) . is_empty ( ) ==> v_trim_is_empty ( name )
//@ rewrite name . v_chars ( ) . any ( char :: is_whitespace ) ==> v_any_whitespace ( name )
//@ rewrite name . v_chars ( ) . any ( char :: is_control ) ==> v_any_control ( name )
//@ extract prexel/src/context.rs | mod validate / fn check_token_name
//@ ret r
//@ spec
    ensures r is Ok <==> s_name_ok(name@)
//@ end
/// the `#[cfg(debug_assertions)]` statement: the check runs in builds with debug assertions only
#[verifier::external_body]
pub fn v_debug_build() -> (r: bool) ensures r == s_debug_build() { unimplemented!() }
pub fn v_check(kind: TokenKind, name: &str) -> (r: Result<()>) ensures r is Ok <==> s_valid(name@)
{ if v_debug_build() { check_token_name(kind, name) } else { Ok(()) } }
//@ rewrite # [ cfg ( debug_assertions ) ] validate :: check_token_name ==> v_check
//@ rewrite func . name ( ) . to_string ( ) ==> v_to_string ( func . name ( ) )
//@ rewrite name . to_string ( ) ==> v_to_string ( name )
//@ rewrite . keys ( ) . any ( | k | $$e ) ==> . v_keys ( ) . v_any ( | k | -> ( r : bool ) ensures r == ( lo ( k . tx ( ) ) == lo ( name @ ) ) { $$e } )
//@ rewrite eq_ignore_case ( k , name ) ==> eq_ignore_case ( k . v_text ( ) , name )
//@ rewrite for alias in aliases . iter ( ) . map ( | s | IgnoreCaseString :: from ( * s ) ) { ==> let mut v_i : usize = 0 ; while v_i < aliases . len ( ) { let alias = IgnoreCaseString :: from ( aliases [ v_i ] ) ; v_i += 1 ;
// ---------------------------------------------------------------- configuration
impl Default for Config {
    // derived in the source
    #[verifier::external_body]
    fn default() -> (r: Config) ensures !r.implicit_mul, !r.complex_number, !r.custom_function_call { unimplemented!() }
}
impl Config {
//@ extract prexel/src/context.rs | impl Config / fn new
//@ ret r
//@ spec
        ensures !r.implicit_mul, !r.complex_number, !r.custom_function_call
//@ end
//@ extract prexel/src/context.rs | impl Config / fn with_implicit_mul
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures r.implicit_mul == enable, r.complex_number == self.complex_number, r.custom_function_call == self.custom_function_call, r.grouping == self.grouping
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/context.rs | impl Config / fn with_complex_number
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures r.implicit_mul == self.implicit_mul, r.complex_number == enable, r.custom_function_call == self.custom_function_call, r.grouping == self.grouping
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/context.rs | impl Config / fn with_custom_function_call
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures r.implicit_mul == self.implicit_mul, r.complex_number == self.complex_number, r.custom_function_call == enable, r.grouping == self.grouping
//@ start
        let mut v_self = self;
//@ end
//@ extract prexel/src/context.rs | impl Config / fn with_grouping
//@ ret r
//@ rewrite ( mut self , ==> ( self ,
//@ bodyrewrite self ==> v_self
//@ spec
        ensures r.implicit_mul == self.implicit_mul, r.complex_number == self.complex_number, r.custom_function_call == self.custom_function_call
//@ start
        let mut v_self = self;
//@ end
}
// ---------------------------------------------------------------- the context
//@ extract prexel/src/context.rs | struct DefaultContext
//@ rewrite variables : ==> pub variables :
//@ rewrite constants : ==> pub constants :
//@ rewrite functions : ==> pub functions :
//@ rewrite unary_functions : ==> pub unary_functions :
//@ rewrite binary_functions : ==> pub binary_functions :
//@ rewrite config : ==> pub config :
//@ attr #[verifier::reject_recursive_types(N)]
//@ end
/// the names under which a function is registered: its own and its aliases, ignoring case
pub open spec fn names(name: Seq<char>, al: Option<Seq<Seq<char>>>) -> ISet<Seq<Seq<char>>> {
    ISet::new(|k: Seq<Seq<char>>| k == lo(name) || (al matches Some(a) && exists|i: int| 0 <= i < a.len() && lo(#[trigger] a[i]) == k))
}
pub open spec fn add_all<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, ks: ISet<Seq<Seq<char>>>, v: V) -> vstd::imap::IMap<Seq<Seq<char>>, V> {
    vstd::imap::IMap::new(|k: Seq<Seq<char>>| m.dom().contains(k) || ks.contains(k), |k: Seq<Seq<char>>| if ks.contains(k) { v } else { m[k] })
}
pub open spec fn pre(al: Seq<Seq<char>>, n: int) -> ISet<Seq<Seq<char>>> { ISet::new(|k: Seq<Seq<char>>| exists|i: int| 0 <= i < n && lo(#[trigger] al[i]) == k) }
impl<'a, N> DefaultContext<'a, N> {
    /// no name is both a variable and a constant, ignoring case
    pub open spec fn wf(&self) -> bool { forall|v: Seq<char>| #[trigger] self.variables.m().dom().contains(v) ==> !self.constants.m().dom().contains(lo(v)) }
    pub open spec fn is_empty(&self) -> bool {
        &&& self.variables.m() == vstd::imap::IMap::<Seq<char>, N>::empty()
        &&& self.constants.m() == vstd::imap::IMap::<Seq<Seq<char>>, N>::empty()
        &&& self.functions.m() == vstd::imap::IMap::<Seq<Seq<char>>, Rc<dyn Function<N> + 'a>>::empty()
        &&& self.unary_functions.m() == vstd::imap::IMap::<Seq<Seq<char>>, Rc<dyn UnaryFunction<N> + 'a>>::empty()
        &&& self.binary_functions.m() == vstd::imap::IMap::<Seq<Seq<char>>, Rc<dyn BinaryFunction<N> + 'a>>::empty()
    }
//@ rewrite Default :: default ( ) ==> Map :: default ( )
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn new
//@ ret r
//@ spec
        ensures r.is_empty(), r.wf()
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn with_config
//@ ret r
//@ spec
        ensures r.is_empty(), r.wf(), r.config == config
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn variables
//@ ret r
//@ spec
        ensures *r == self.variables
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn constants
//@ ret r
//@ spec
        ensures *r == self.constants
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn functions
//@ ret r
//@ spec
        ensures *r == self.functions
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn unary_functions
//@ ret r
//@ spec
        ensures *r == self.unary_functions
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn binary_functions
//@ ret r
//@ spec
        ensures *r == self.binary_functions
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn add_function_as
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ bodyrewrite self . functions . insert ( alias , func . clone ( ) ) ==> self . functions . insert ( alias , v_dyn_fun ( & func ) )
//@ bodyrewrite self . functions . insert ( function_name , func ) ==> self . functions . insert ( function_name , v_dyn_fun ( & func ) )
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).unary_functions == old(self).unary_functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(name@) && old(self).functions.m().dom().disjoint(names(name@, func.s_aliases())),
            r is Ok ==> final(self).functions.m() == add_all(old(self).functions.m(), names(name@, func.s_aliases()), dyn_fun::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ start
        let ghost s0 = *self; let ghost f0 = func;
        let ghost al = match func.s_aliases() { Some(a) => a, None => Seq::empty() };
        let ghost ks = names(name@, func.s_aliases());
        proof { assert(ks.contains(lo(name@))); assert forall|i: int| 0 <= i < al.len() implies ks.contains(lo(#[trigger] al[i])) by {} }
//@ loop 0
        invariant *self == s0, v_i <= aliases@.len(), al == aliases@.map_values(|s: &str| s@), forall|j: int| 0 <= j < v_i ==> !s0.functions.m().dom().contains(lo(#[trigger] al[j])),
        decreases aliases@.len() - v_i
//@ loop 0 start
        proof { assert(al[v_i as int] == aliases@[v_i as int]@); assert(ks.contains(lo(al[v_i as int]))); }
//@ loop 1
        invariant v_i <= aliases@.len(), self.variables == s0.variables, self.constants == s0.constants, self.unary_functions == s0.unary_functions, self.binary_functions == s0.binary_functions, self.config == s0.config, *func == f0, al == aliases@.map_values(|s: &str| s@),
            self.functions.m() == add_all(s0.functions.m(), pre(al, v_i as int), dyn_fun::<N, F>(f0)),
        decreases aliases@.len() - v_i
//@ loop 1 before
        proof { assert(self.functions.m() =~= add_all(s0.functions.m(), pre(al, 0), dyn_fun::<N, F>(f0))); }
//@ loop 1 end
        proof {
            assert(pre(al, v_i as int).contains(lo(al[v_i - 1])));
            assert(forall|k: Seq<Seq<char>>| pre(al, v_i as int).contains(k) <==> pre(al, v_i - 1).contains(k) || k == lo(al[v_i - 1]));
            assert(self.functions.m() =~= add_all(s0.functions.m(), pre(al, v_i as int), dyn_fun::<N, F>(f0)));
        }
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn add_function
//@ ret r
//@ vis pub
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).unary_functions == old(self).unary_functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(func.s_name()) && old(self).functions.m().dom().disjoint(names(func.s_name(), func.s_aliases())),
            r is Ok ==> final(self).functions.m() == add_all(old(self).functions.m(), names(func.s_name(), func.s_aliases()), dyn_fun::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn add_unary_function_as
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ bodyrewrite self . unary_functions . insert ( alias , func . clone ( ) ) ==> self . unary_functions . insert ( alias , v_dyn_un ( & func ) )
//@ bodyrewrite self . unary_functions . insert ( function_name , func ) ==> self . unary_functions . insert ( function_name , v_dyn_un ( & func ) )
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).functions == old(self).functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(name@) && old(self).unary_functions.m().dom().disjoint(names(name@, func.s_aliases())),
            r is Ok ==> final(self).unary_functions.m() == add_all(old(self).unary_functions.m(), names(name@, func.s_aliases()), dyn_un::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ start
        let ghost s0 = *self; let ghost f0 = func;
        let ghost al = match func.s_aliases() { Some(a) => a, None => Seq::empty() };
        let ghost ks = names(name@, func.s_aliases());
        proof { assert(ks.contains(lo(name@))); assert forall|i: int| 0 <= i < al.len() implies ks.contains(lo(#[trigger] al[i])) by {} }
//@ loop 0
        invariant *self == s0, v_i <= aliases@.len(), al == aliases@.map_values(|s: &str| s@), forall|j: int| 0 <= j < v_i ==> !s0.unary_functions.m().dom().contains(lo(#[trigger] al[j])),
        decreases aliases@.len() - v_i
//@ loop 0 start
        proof { assert(al[v_i as int] == aliases@[v_i as int]@); assert(ks.contains(lo(al[v_i as int]))); }
//@ loop 1
        invariant v_i <= aliases@.len(), self.variables == s0.variables, self.constants == s0.constants, self.functions == s0.functions, self.binary_functions == s0.binary_functions, self.config == s0.config, *func == f0, al == aliases@.map_values(|s: &str| s@),
            self.unary_functions.m() == add_all(s0.unary_functions.m(), pre(al, v_i as int), dyn_un::<N, F>(f0)),
        decreases aliases@.len() - v_i
//@ loop 1 before
        proof { assert(self.unary_functions.m() =~= add_all(s0.unary_functions.m(), pre(al, 0), dyn_un::<N, F>(f0))); }
//@ loop 1 end
        proof {
            assert(pre(al, v_i as int).contains(lo(al[v_i - 1])));
            assert(forall|k: Seq<Seq<char>>| pre(al, v_i as int).contains(k) <==> pre(al, v_i - 1).contains(k) || k == lo(al[v_i - 1]));
            assert(self.unary_functions.m() =~= add_all(s0.unary_functions.m(), pre(al, v_i as int), dyn_un::<N, F>(f0)));
        }
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn add_unary_function
//@ ret r
//@ vis pub
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).functions == old(self).functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(func.s_name()) && old(self).unary_functions.m().dom().disjoint(names(func.s_name(), func.s_aliases())),
            r is Ok ==> final(self).unary_functions.m() == add_all(old(self).unary_functions.m(), names(func.s_name(), func.s_aliases()), dyn_un::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ end
//@ extract prexel/src/context.rs | impl DefaultContext<'a,N> / fn add_binary_function_as
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ bodyrewrite self . binary_functions . insert ( alias , func . clone ( ) ) ==> self . binary_functions . insert ( alias , v_dyn_bin ( & func ) )
//@ bodyrewrite self . binary_functions . insert ( function_name , func ) ==> self . binary_functions . insert ( function_name , v_dyn_bin ( & func ) )
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).functions == old(self).functions, final(self).unary_functions == old(self).unary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(name@) && old(self).binary_functions.m().dom().disjoint(names(name@, func.s_aliases())),
            r is Ok ==> final(self).binary_functions.m() == add_all(old(self).binary_functions.m(), names(name@, func.s_aliases()), dyn_bin::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ start
        let ghost s0 = *self; let ghost f0 = func;
        let ghost al = match func.s_aliases() { Some(a) => a, None => Seq::empty() };
        let ghost ks = names(name@, func.s_aliases());
        proof { assert(ks.contains(lo(name@))); assert forall|i: int| 0 <= i < al.len() implies ks.contains(lo(#[trigger] al[i])) by {} }
//@ loop 0
        invariant *self == s0, v_i <= aliases@.len(), al == aliases@.map_values(|s: &str| s@), forall|j: int| 0 <= j < v_i ==> !s0.binary_functions.m().dom().contains(lo(#[trigger] al[j])),
        decreases aliases@.len() - v_i
//@ loop 0 start
        proof { assert(al[v_i as int] == aliases@[v_i as int]@); assert(ks.contains(lo(al[v_i as int]))); }
//@ loop 1
        invariant v_i <= aliases@.len(), self.variables == s0.variables, self.constants == s0.constants, self.functions == s0.functions, self.unary_functions == s0.unary_functions, self.config == s0.config, *func == f0, al == aliases@.map_values(|s: &str| s@),
            self.binary_functions.m() == add_all(s0.binary_functions.m(), pre(al, v_i as int), dyn_bin::<N, F>(f0)),
        decreases aliases@.len() - v_i
//@ loop 1 before
        proof { assert(self.binary_functions.m() =~= add_all(s0.binary_functions.m(), pre(al, 0), dyn_bin::<N, F>(f0))); }
//@ loop 1 end
        proof {
            assert(pre(al, v_i as int).contains(lo(al[v_i - 1])));
            assert(forall|k: Seq<Seq<char>>| pre(al, v_i as int).contains(k) <==> pre(al, v_i - 1).contains(k) || k == lo(al[v_i - 1]));
            assert(self.binary_functions.m() =~= add_all(s0.binary_functions.m(), pre(al, v_i as int), dyn_bin::<N, F>(f0)));
        }
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn add_binary_function
//@ ret r
//@ vis pub
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).constants == old(self).constants, final(self).functions == old(self).functions, final(self).unary_functions == old(self).unary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(func.s_name()) && old(self).binary_functions.m().dom().disjoint(names(func.s_name(), func.s_aliases())),
            r is Ok ==> final(self).binary_functions.m() == add_all(old(self).binary_functions.m(), names(func.s_name(), func.s_aliases()), dyn_bin::<N, F>(func)),
            r is Err ==> *final(self) == *old(self)
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn add_constant
//@ ret r
//@ vis pub
//@ spec
        ensures
            final(self).variables == old(self).variables, final(self).functions == old(self).functions, final(self).unary_functions == old(self).unary_functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(name@) && forall|v: Seq<char>| #[trigger] old(self).variables.m().dom().contains(v) ==> lo(v) != lo(name@),
            r is Ok ==> final(self).constants.m() == old(self).constants.m().insert(lo(name@), value),
            r is Err ==> *final(self) == *old(self),
            old(self).wf() ==> final(self).wf(),
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn set_variable
//@ ret r
//@ vis pub
//@ spec
        ensures
            final(self).constants == old(self).constants, final(self).functions == old(self).functions, final(self).unary_functions == old(self).unary_functions, final(self).binary_functions == old(self).binary_functions, final(self).config == old(self).config,
            r is Ok <==> s_valid(name@) && !old(self).constants.m().dom().contains(lo(name@)),
            r matches Ok(p) ==> final(self).variables.m() == old(self).variables.m().insert(name@, value)
                && p == (if old(self).variables.m().dom().contains(name@) { Some(old(self).variables.m()[name@]) } else { None }),
            r is Err ==> *final(self) == *old(self),
            old(self).wf() ==> final(self).wf(),
//@ end
}
impl<'a, N> Default for DefaultContext<'a, N> {
//@ extract prexel/src/context.rs | impl Default for DefaultContext<'a,N> / fn default
//@ ret r
//@ spec
        ensures r.is_empty(), r.wf()
//@ end
}
/// the lookups: this is the contract of `Context` the evaluator and the tokenizer are verified against
impl<'a, N> Context<'a, N> for DefaultContext<'a, N> {
    open spec fn cx(&self) -> Cx<N> {
        Cx {
            un: |n: Seq<char>| if self.unary_functions.m().dom().contains(lo(n)) { Some(SUn { prefix: self.unary_functions.m()[lo(n)].s_notation() == Notation::Prefix, f: |x: N| self.unary_functions.m()[lo(n)].s_call(x) }) } else { None },
            bin: |n: Seq<char>| if self.binary_functions.m().dom().contains(lo(n)) { Some(SBin { prec: self.binary_functions.m()[lo(n)].s_prec().0, left: self.binary_functions.m()[lo(n)].s_assoc() == Associativity::Left, f: |x: N, y: N| self.binary_functions.m()[lo(n)].s_call(x, y) }) } else { None },
            fun: |n: Seq<char>| if self.functions.m().dom().contains(lo(n)) { Some(|a: Seq<N>| self.functions.m()[lo(n)].s_call(a)) } else { None },
            var: |n: Seq<char>| if self.variables.m().dom().contains(n) { Some(self.variables.m()[n]) } else { None },
            con: |n: Seq<char>| if self.constants.m().dom().contains(lo(n)) { Some(self.constants.m()[lo(n)]) } else { None },
            imul: self.config.implicit_mul, custom: self.config.custom_function_call, complex: self.config.complex_number,
        }
    }
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn config
//@ ret r
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn get_variable
//@ ret r
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn get_constant
//@ ret r
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn get_function
//@ ret r
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn get_unary_function
//@ ret r
//@ end
//@ extract prexel/src/context.rs | impl Context<'a,N> for DefaultContext<'a,N> / fn get_binary_function
//@ ret r
//@ end
}
// ---------------------------------------------------------------- C07: one registration changes exactly its names
pub open spec fn look<K, V>(m: vstd::imap::IMap<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub proof fn theorem_c07<V>(m: vstd::imap::IMap<Seq<Seq<char>>, V>, name: Seq<char>, al: Option<Seq<Seq<char>>>, v: V)
    ensures ({
        let m2 = add_all(m, names(name, al), v);
        &&& look(m2, lo(name)) == Some(v)
        &&& al matches Some(a) ==> forall|i: int| 0 <= i < a.len() ==> look(m2, lo(#[trigger] a[i])) == Some(v)
        &&& forall|n: Seq<char>| lo(n) != lo(name) && (al matches Some(a) ==> forall|i: int| 0 <= i < a.len() ==> lo(#[trigger] a[i]) != lo(n)) ==> #[trigger] look(m2, lo(n)) == look(m, lo(n))
    })
{
    assert(names(name, al).contains(lo(name)));
    match al { Some(a) => { assert forall|i: int| 0 <= i < a.len() implies names(name, al).contains(lo(#[trigger] a[i])) by {} } None => {} }
}
