// ---------------------------------------------------------------- C01/C02: the public conversion function
/// C01: converted exactly to the postfix form of the tree it is written from
pub open spec fn p_c01<N>(cx: Cx<N>, toks: Seq<STok<N>>, r: Option<Seq<STok<N>>>) -> bool {
    forall|e: Expr<N>| wf(cx, e) && #[trigger] flat(e) == toks ==> r == Some(post(e))
}
/// C02: whatever is accepted
pub open spec fn p_c02<N>(cx: Cx<N>, toks: Seq<STok<N>>, r: Option<Seq<STok<N>>>) -> bool {
    r matches Some(v) ==> c02_ok(cx, toks, v)
}
pub proof fn lemma_props<N>(cx: Cx<N>, toks: Seq<STok<N>>)
    ensures p_c01(cx, toks, s_run(cx, toks)), p_c02(cx, toks, s_run(cx, toks)),
{
    assert forall|e: Expr<N>| wf(cx, e) && #[trigger] flat(e) == toks implies s_run(cx, toks) == Some(post(e)) by { theorem_c01(cx, e); }
    theorem_c02(cx, toks);
}
pub open spec fn res_seq<N>(r: Result<Vec<Token<N>>>) -> Option<Seq<STok<N>>> { match r { Ok(v) => Some(tvs(v@)), Err(_) => None } }
//@ unrewrite shunting_yard
//@ rewrite shunting_yard::$f ==> yard::$f
//@ extract prexel/src/evaluator.rs | fn infix_to_rpn
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures
        p_c01(context.cx(), tvs(tokens@), res_seq(r)),
        p_c02(context.cx(), tvs(tokens@), res_seq(r)),
//@ start
    proof { lemma_props(context.cx(), tvs(tokens@)); }
//@ end

// ---------------------------------------------------------------- C03: the value of a tree
/// the value the context gives a tree: operands looked up, every operator and function applied to
/// the values of exactly its own operands, in source order; None = error
pub open spec fn den<N>(cx: Cx<N>, e: Expr<N>) -> Option<N> decreases e {
    match e {
        Expr::Atom(a) => match a { STok::Num(n) => Some(n), STok::Var(s) => (cx.var)(s), STok::Con(s) => (cx.con)(s), _ => None },
        Expr::Paren(_, _, x) => den(cx, *x),
        Expr::Call0(f, _, _) => match (cx.fun)(f) { Some(g) => g(seq![]), None => None },
        Expr::Call(f, _, _, a) => match (den_args(cx, *a), (cx.fun)(f)) { (Some(v), Some(g)) => g(v), _ => None },
        Expr::Pre(u, x) => match (den(cx, *x), (cx.un)(u)) { (Some(v), Some(o)) => (o.f)(v), _ => None },
        Expr::Post(u, x) => match (den(cx, *x), (cx.un)(u)) { (Some(v), Some(o)) => (o.f)(v), _ => None },
        Expr::Bin(o, l, r) => match (den(cx, *l), den(cx, *r), (cx.bin)(o)) { (Some(a), Some(b), Some(p)) => (p.f)(a, b), _ => None },
        Expr::Juxt(l, r) => match (den(cx, *l), den(cx, *r), (cx.bin)(seq!['*'])) { (Some(a), Some(b), Some(p)) => (p.f)(a, b), _ => None },
    }
}
pub open spec fn den_args<N>(cx: Cx<N>, a: Args<N>) -> Option<Seq<N>> decreases a {
    match a {
        Args::One(x) => match den(cx, *x) { Some(v) => Some(seq![v]), None => None },
        Args::More(b, x) => match (den_args(cx, *b), den(cx, *x)) { (Some(s), Some(v)) => Some(s.push(v)), _ => None },
    }
}
pub open spec fn ev<N>(v: Seq<N>) -> Ev<N> { Ev { vals: v, arg: None } }
pub mod c03 { use super::*;
proof fn lemma_at<N>(t: Seq<STok<N>>, i: int, a: Seq<STok<N>>, b: Seq<STok<N>>)
    requires at(t, i, a + b),
    ensures at(t, i, a), at(t, i + a.len(), b),
{
    assert forall|k: int| 0 <= k < a.len() implies t[i + k] == #[trigger] a[k] by { assert((a + b)[k] == a[k]); }
    assert forall|k: int| 0 <= k < b.len() implies t[i + a.len() + k] == #[trigger] b[k] by { assert((a + b)[a.len() + k] == b[k]); }
}
proof fn lemma_at_push<N>(t: Seq<STok<N>>, i: int, a: Seq<STok<N>>, x: STok<N>)
    requires at(t, i, a.push(x)),
    ensures at(t, i, a), 0 <= i + a.len() < t.len(), t[i + a.len()] == x,
{
    assert(a.push(x) =~= a + seq![x]); lemma_at(t, i, a, seq![x]); assert(seq![x][0] == x); assert(t[i + a.len() + 0] == x);
}
/// evaluating post(e) pushes exactly den(e)
pub proof fn lemma_den<N>(cx: Cx<N>, e: Expr<N>, t: Seq<STok<N>>, i: int, v: Seq<N>)
    requires wf(cx, e), at(t, i, post(e)),
    ensures s_eval(cx, t, i, ev(v)) == (match den(cx, e) { Some(x) => s_eval(cx, t, i + post(e).len(), ev(v.push(x))), None => None }),
    decreases e,
{
    match e {
        Expr::Atom(a) => { assert(t[i + 0] == post(e)[0]); lemma_eval_step(cx, t, i, ev(v)); },
        Expr::Paren(_, _, x) => { lemma_den(cx, *x, t, i, v); },
        Expr::Call0(f, _, _) => {
            let w = seq![STok::<N>::Arg(0), STok::Fun(f)];
            assert(t[i + 0] == w[0]); assert(t[i + 1] == w[1]);
            lemma_eval_step(cx, t, i, ev(v)); lemma_eval_step(cx, t, i + 1, Ev { vals: v, arg: Some(0) });
            assert(s_top(v, 0) =~= seq![]); assert(v.subrange(0, v.len() as int) =~= v);
        },
        Expr::Call(f, _, _, a) => {
            let w = seq![STok::Arg(nargs(*a)), STok::Fun(f)]; let j = i + post_args(*a).len();
            lemma_at(t, i, post_args(*a), w);
            assert(t[j + 0] == w[0]); assert(t[j + 1] == w[1]);
            lemma_den_args(cx, *a, t, i, v);
            if let Some(s) = den_args(cx, *a) {
                lemma_eval_step(cx, t, j, ev(v + s)); lemma_eval_step(cx, t, j + 1, Ev { vals: v + s, arg: Some(nargs(*a)) });
                assert(s_top(v + s, nargs(*a)) =~= s); assert((v + s).subrange(0, v.len() as int) =~= v);
            }
        },
        Expr::Pre(u, x) => { lemma_un(cx, e, u, x, t, i, v); },
        Expr::Post(u, x) => { lemma_un(cx, e, u, x, t, i, v); },
        Expr::Bin(o, l, r) => { lemma_bin(cx, e, o, l, r, t, i, v); },
        Expr::Juxt(l, r) => { lemma_bin(cx, e, seq!['*'], l, r, t, i, v); },
    }
}
proof fn lemma_un<N>(cx: Cx<N>, e: Expr<N>, u: Seq<char>, x: Box<Expr<N>>, t: Seq<STok<N>>, i: int, v: Seq<N>)
    requires e == Expr::Pre(u, x) || e == Expr::Post(u, x), wf(cx, e), at(t, i, post(*x).push(STok::Un(u))),
    ensures s_eval(cx, t, i, ev(v)) == (match den(cx, e) { Some(x) => s_eval(cx, t, i + post(e).len(), ev(v.push(x))), None => None }),
    decreases e, 0nat,
{
    lemma_at_push(t, i, post(*x), STok::Un(u));
    let j = i + post(*x).len();
    lemma_den(cx, *x, t, i, v);
    if let Some(a) = den(cx, *x) {
        lemma_eval_step(cx, t, j, ev(v.push(a)));
        assert(v.push(a).drop_last() =~= v);
    }
}
proof fn lemma_bin<N>(cx: Cx<N>, e: Expr<N>, o: Seq<char>, l: Box<Expr<N>>, r: Box<Expr<N>>, t: Seq<STok<N>>, i: int, v: Seq<N>)
    requires e == Expr::Bin(o, l, r) || (e == Expr::Juxt(l, r) && o == seq!['*']), wf(cx, e), at(t, i, (post(*l) + post(*r)).push(STok::Bin(o))),
    ensures s_eval(cx, t, i, ev(v)) == (match den(cx, e) { Some(x) => s_eval(cx, t, i + post(e).len(), ev(v.push(x))), None => None }),
    decreases e, 0nat,
{
    lemma_at_push(t, i, post(*l) + post(*r), STok::Bin(o));
    lemma_at(t, i, post(*l), post(*r));
    let j = i + post(*l).len(); let k = j + post(*r).len();
    lemma_den(cx, *l, t, i, v);
    if let Some(a) = den(cx, *l) {
        lemma_den(cx, *r, t, j, v.push(a));
        if let Some(b) = den(cx, *r) {
            let w = v.push(a).push(b);
            lemma_eval_step(cx, t, k, ev(w));
            assert(w.drop_last().drop_last() =~= v); assert(w[w.len() - 2] == a); assert(w.last() == b);
        }
    }
}
proof fn lemma_den_args<N>(cx: Cx<N>, a: Args<N>, t: Seq<STok<N>>, i: int, v: Seq<N>)
    requires wf_args(cx, a), at(t, i, post_args(a)),
    ensures
        den_args(cx, a) matches Some(s) ==> s.len() == nargs(a),
        s_eval(cx, t, i, ev(v)) == (match den_args(cx, a) { Some(s) => s_eval(cx, t, i + post_args(a).len(), ev(v + s)), None => None }),
    decreases a, 0nat,
{
    match a {
        Args::One(x) => { lemma_den(cx, *x, t, i, v); if let Some(y) = den(cx, *x) { assert(v.push(y) =~= v + seq![y]); } },
        Args::More(b, x) => {
            lemma_at(t, i, post_args(*b), post(*x));
            lemma_den_args(cx, *b, t, i, v);
            if let Some(s) = den_args(cx, *b) {
                lemma_den(cx, *x, t, i + post_args(*b).len(), v + s);
                if let Some(y) = den(cx, *x) { assert((v + s).push(y) =~= v + s.push(y)); }
            }
        },
    }
}
}
/// C03 on trees: evaluation returns exactly the tree's value, or an error when it has none
pub proof fn theorem_c03<N>(cx: Cx<N>, e: Expr<N>)
    requires wf(cx, e),
    ensures s_eval_infix(cx, flat(e)) == den(cx, e),
{
    theorem_c01(cx, e);
    let p = post(e);
    assert(at(p, 0, p));
    c03::lemma_den(cx, e, p, 0, seq![]);
    if let Some(x) = den(cx, e) { lemma_eval_step(cx, p, p.len() as int, ev(seq![x])); assert(Seq::<N>::empty().push(x) =~= seq![x]); assert(seq![x][0] == x); }
    assert(s_eval_infix(cx, flat(e)) == den(cx, e));
}
pub open spec fn p_c03<N>(cx: Cx<N>, toks: Seq<STok<N>>, r: Result<N>) -> bool {
    &&& res_is(r, s_eval_infix(cx, toks))
    &&& forall|e: Expr<N>| wf(cx, e) && #[trigger] flat(e) == toks ==> res_is(r, den(cx, e))
}
pub broadcast proof fn lemma_p_c03<N>(cx: Cx<N>, toks: Seq<STok<N>>, r: Result<N>)
    requires #[trigger] res_is(r, s_eval_infix(cx, toks)),
    ensures p_c03(cx, toks, r),
{
    assert forall|e: Expr<N>| wf(cx, e) && #[trigger] flat(e) == toks implies res_is(r, den(cx, e)) by { theorem_c03(cx, e); }
}

pub mod facade { use super::*; use super::rpn::rpn_eval; broadcast use super::lemma_p_c03;
// ---------------------------------------------------------------- the evaluator facade
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(C)]
pub struct Tokenizer<'a, N, C> { _p: core::marker::PhantomData<&'a (N, C)> }
impl<'a, N, C: Context<'a, N>> Tokenizer<'a, N, C> {
    /// what tokenizing a text yields (C05 specifies it; here: whatever it returned)
    pub uninterp spec fn s_tokenize(&self, c: &C, e: Seq<char>) -> Option<Seq<STok<N>>>;
    #[verifier::external_body]
    pub fn tokenize(&'a self, context: &C, expression: &str) -> (r: Result<Vec<Token<N>>>)
        ensures res_seq(r) == self.s_tokenize(context, expression@),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(C)]
//@ rewrite = DefaultContext<'a, N>> ==> >
//@ rewrite &'a PhantomData<N> ==> core::marker::PhantomData<&'a N>
//@ extract prexel/src/evaluator.rs | struct Evaluator
//@ end
impl<'a, N, C: Context<'a, N>> Evaluator<'a, N, C> {
    pub closed spec fn s_context(&self) -> &C { &self.context }
    pub closed spec fn s_tokenizer(&self) -> &Tokenizer<'a, N, C> { &self.tokenizer }
//@ extract prexel/src/evaluator.rs | impl Evaluator<'a, N, C> / fn context
//@ ret r
//@ spec
    ensures r == self.s_context(),
//@ end
}
impl<'a, C: Context<'a, N>, N: Debug + Clone> Evaluator<'a, N, C> {
//@ extract prexel/src/evaluator.rs | impl Evaluator<'a, N, C> / fn eval_tokens
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures p_c03(self.s_context().cx(), tvs(tokens@), r),
//@ finish
//@ end
//@ extract prexel/src/evaluator.rs | impl Evaluator<'a, N, C> / fn eval
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures match self.s_tokenizer().s_tokenize(self.s_context(), expression@) { None => r is Err, Some(toks) => p_c03(self.s_context().cx(), toks, r) },
//@ end
}
}
