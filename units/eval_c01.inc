// ---------------------------------------------------------------- C01: expression trees
/// Expression trees. `Paren`/`Call*` carry their grouping symbols (open, close).
#[verifier::reject_recursive_types(N)]
pub enum Expr<N> {
    Atom(STok<N>),                                          // number, variable or constant
    Paren(char, char, Box<Expr<N>>),
    Call0(Seq<char>, char, char),                           // f()
    Call(Seq<char>, char, char, Box<Args<N>>),              // f(a, b, ..)
    Pre(Seq<char>, Box<Expr<N>>),                           // prefix operator
    Post(Seq<char>, Box<Expr<N>>),                          // postfix operator
    Bin(Seq<char>, Box<Expr<N>>, Box<Expr<N>>),
    Juxt(Box<Expr<N>>, Box<Expr<N>>),                       // juxtaposition, means multiplication
}
#[verifier::reject_recursive_types(N)]
pub enum Args<N> { One(Box<Expr<N>>), More(Box<Args<N>>, Box<Expr<N>>) }

/// the token sequence an expression is written as
pub open spec fn flat<N>(e: Expr<N>) -> Seq<STok<N>> decreases e {
    match e {
        Expr::Atom(a) => seq![a],
        Expr::Paren(o, c, x) => seq![STok::Open(o)] + flat(*x) + seq![STok::Close(c)],
        Expr::Call0(f, o, c) => seq![STok::Fun(f), STok::Open(o), STok::Close(c)],
        Expr::Call(f, o, c, a) => seq![STok::Fun(f), STok::Open(o)] + flat_args(*a) + seq![STok::Close(c)],
        Expr::Pre(u, x) => seq![STok::Un(u)] + flat(*x),
        Expr::Post(u, x) => flat(*x) + seq![STok::Un(u)],
        Expr::Bin(o, l, r) => flat(*l) + seq![STok::Bin(o)] + flat(*r),
        Expr::Juxt(l, r) => flat(*l) + flat(*r),
    }
}
pub open spec fn flat_args<N>(a: Args<N>) -> Seq<STok<N>> decreases a {
    match a { Args::One(x) => flat(*x), Args::More(b, x) => flat_args(*b) + seq![STok::Comma] + flat(*x) }
}
pub open spec fn nargs<N>(a: Args<N>) -> nat decreases a { match a { Args::One(_) => 1, Args::More(b, _) => nargs(*b) + 1 } }
/// the postfix form of the tree
pub open spec fn post<N>(e: Expr<N>) -> Seq<STok<N>> decreases e {
    match e {
        Expr::Atom(a) => seq![a],
        Expr::Paren(o, c, x) => post(*x),
        Expr::Call0(f, o, c) => seq![STok::Arg(0), STok::Fun(f)],
        Expr::Call(f, o, c, a) => post_args(*a) + seq![STok::Arg(nargs(*a)), STok::Fun(f)],
        Expr::Pre(u, x) => post(*x).push(STok::Un(u)),
        Expr::Post(u, x) => post(*x).push(STok::Un(u)),
        Expr::Bin(o, l, r) => (post(*l) + post(*r)).push(STok::Bin(o)),
        Expr::Juxt(l, r) => (post(*l) + post(*r)).push(star()),
    }
}
pub open spec fn post_args<N>(a: Args<N>) -> Seq<STok<N>> decreases a {
    match a { Args::One(x) => post(*x), Args::More(b, x) => post_args(*b) + post(*x) }
}
/// operators still waiting for their right operand when the expression's last token has been read,
/// outermost first (the expression's right spine)
pub open spec fn spine<N>(e: Expr<N>) -> Seq<STok<N>> decreases e {
    match e {
        Expr::Pre(u, x) => if *x is Atom { seq![] } else { seq![STok::Un(u)] + spine(*x) },
        Expr::Bin(o, l, r) => seq![STok::Bin(o)] + spine(*r),
        Expr::Juxt(l, r) => seq![star()] + spine(*r),
        _ => seq![],
    }
}
/// a complete operand: nothing pending on its right edge
pub open spec fn closed<N>(e: Expr<N>) -> bool {
    match e { Expr::Pre(_, x) => *x is Atom, Expr::Bin(_, _, _) => false, Expr::Juxt(_, _) => false, _ => true }
}
pub open spec fn first_tok<N>(e: Expr<N>) -> STok<N> { flat(e)[0] }
pub open spec fn last_tok<N>(e: Expr<N>) -> STok<N> { flat(e).last() }
/// may `e` start as the operand of the pending `top`?  I.e. nothing on the left edge of `e`
/// (where there are no parentheses to protect it) would be captured by `top` first.
pub open spec fn under<N>(cx: Cx<N>, top: STok<N>, e: Expr<N>) -> bool decreases e {
    match e {
        Expr::Atom(_) => un_of(cx, top) is None,
        Expr::Post(_, x) => under(cx, top, *x),
        Expr::Bin(o, l, _) => (cx.bin)(o) is Some && !pops(cx, top, (cx.bin)(o).unwrap()) && under(cx, top, *l),
        Expr::Juxt(l, _) => under(cx, top, *l),
        _ => true,
    }
}
pub open spec fn pops_all<N>(cx: Cx<N>, s: Seq<STok<N>>, b: SBin<N>) -> bool { forall|i: int| 0 <= i < s.len() ==> pops(cx, #[trigger] s[i], b) }
/// The tree is the one that precedence, associativity and grouping prescribe:
/// - the left operand of a binary operator ends in operators that bind at least as tightly
///   (tighter, or equal and left associative; prefix operators bind tightest);
/// - the right operand starts with no operator the binary operator would capture first;
/// - postfix operators apply to complete operands; a prefix operator applies to the operand at its right.
pub open spec fn wf<N>(cx: Cx<N>, e: Expr<N>) -> bool decreases e {
    match e {
        Expr::Atom(a) => is_operand(a),
        Expr::Paren(o, c, x) => close_of(o) == Some(c) && wf(cx, *x),
        Expr::Call0(f, o, c) => close_of(o) == Some(c) && (cx.custom || o == '('),
        Expr::Call(f, o, c, a) => close_of(o) == Some(c) && (cx.custom || o == '(') && wf_args(cx, *a),
        Expr::Pre(u, x) => (cx.un)(u) is Some && (cx.un)(u).unwrap().prefix && wf(cx, *x) && (*x is Atom || under(cx, STok::Un(u), *x)),
        Expr::Post(u, x) => (cx.un)(u) is Some && !(cx.un)(u).unwrap().prefix && wf(cx, *x) && closed(*x),
        Expr::Bin(o, l, r) => (cx.bin)(o) is Some && wf(cx, *l) && wf(cx, *r) && pops_all(cx, spine(*l), (cx.bin)(o).unwrap()) && under(cx, STok::Bin(o), *r),
        Expr::Juxt(l, r) => wf(cx, *l) && wf(cx, *r) && closed(*l) && juxt(cx, last_tok(*l), first_tok(*r)) && under(cx, star(), *r),
    }
}
pub open spec fn wf_args<N>(cx: Cx<N>, a: Args<N>) -> bool decreases a {
    match a { Args::One(x) => wf(cx, *x), Args::More(b, x) => wf_args(cx, *b) && wf(cx, *x) }
}

pub open spec fn rev<N>(s: Seq<STok<N>>) -> Seq<STok<N>> decreases s.len() { if s.len() == 0 { seq![] } else { seq![s.last()] + rev(s.drop_last()) } }
/// output emitted by the time the expression's last token has been read
pub open spec fn head<N>(e: Expr<N>) -> Seq<STok<N>> decreases e {
    match e {
        Expr::Pre(u, x) => if *x is Atom { post(e) } else { head(*x) },
        Expr::Bin(o, l, r) => post(*l) + head(*r),
        Expr::Juxt(l, r) => post(*l) + head(*r),
        _ => post(e),
    }
}
/// state after tokens i..i+n
pub open spec fn s_steps<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, n: nat, st: St<N>) -> Option<St<N>> decreases n {
    if n == 0 { Some(st) } else {
        match s_step(cx, toks, i, st) { None => None, Some(s2) => s_steps(cx, toks, i + 1, (n - 1) as nat, s2) }
    }
}
/// `w` is what is written at position i
pub open spec fn at<N>(toks: Seq<STok<N>>, i: int, w: Seq<STok<N>>) -> bool {
    0 <= i && i + w.len() <= toks.len() && forall|k: int| 0 <= k < w.len() ==> toks[i + k] == #[trigger] w[k]
}
pub open spec fn grp_after(argc: Seq<nat>, g0: Seq<nat>, g1: Seq<nat>) -> bool {
    g0.len() <= g1.len() && g1.take(g0.len() as int) == g0 && (argc.len() > 0 ==> g1 == g0)
}
/// state after reading `e` at i: its head is output, its spine pending, a `*` is pushed if juxtaposed with the next token
pub open spec fn after<N>(cx: Cx<N>, toks: Seq<STok<N>>, last: int, st: St<N>, r: Option<St<N>>, hd: Seq<STok<N>>, sp: Seq<STok<N>>) -> bool {
    r matches Some(s2) && s2.out == st.out + hd && s2.ops == st.ops + (if trig(cx, toks, last) { sp.push(star()) } else { sp })
        && s2.argc == st.argc && grp_after(st.argc, st.grp, s2.grp)
}
pub open spec fn top_ok<N>(cx: Cx<N>, st: St<N>, e: Expr<N>) -> bool {
    st.ops.len() > 0 ==> !(st.ops.last() is Fun) && under(cx, st.ops.last(), e)
}
pub open spec fn last_arg<N>(a: Args<N>) -> Expr<N> { match a { Args::One(x) => *x, Args::More(_, x) => *x } }
/// inside the argument list of a call whose opening symbol is the innermost one
pub open spec fn in_call<N>(toks: Seq<STok<N>>, st: St<N>) -> bool {
    st.ops.len() > 0 && st.ops.last() is Open && st.argc.len() > 0 && st.grp.len() > 0
        && 0 <= st.grp.last() - 1 < toks.len() && toks[st.grp.last() - 1] is Fun
}
pub open spec fn after_args<N>(st: St<N>, r: Option<St<N>>, a: Args<N>) -> bool {
    r matches Some(s2) && s2.ops == st.ops + spine(last_arg(a)) && s2.out + rev(spine(last_arg(a))) == st.out + post_args(a)
        && s2.argc == st.argc.update(st.argc.len() - 1, (st.argc.last() + nargs(a) - 1) as nat) && s2.grp == st.grp
}

pub mod c01 { use super::*;
pub proof fn lemma_steps_add<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, a: nat, b: nat, st: St<N>)
    ensures s_steps(cx, toks, i, a + b, st) == (match s_steps(cx, toks, i, a, st) { None => None, Some(s2) => s_steps(cx, toks, i + a, b, s2) }),
    decreases a,
{
    if a > 0 {
        match s_step(cx, toks, i, st) { None => {}, Some(s2) => { lemma_steps_add(cx, toks, i + 1, (a - 1) as nat, b, s2); assert((a - 1) as nat + b == (a + b - 1) as nat); } }
    }
}
pub proof fn lemma_one<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    ensures s_steps(cx, toks, i, 1, st) == s_step(cx, toks, i, st),
{ reveal_with_fuel(s_steps, 2); }
pub proof fn lemma_flat<N>(cx: Cx<N>, e: Expr<N>)
    requires wf(cx, e),
    ensures flat(e).len() > 0,
        !(first_tok(e) is Close) && !(first_tok(e) is Comma) && !(first_tok(e) is Bin),
        is_operand(last_tok(e)) || last_tok(e) is Close || last_tok(e) is Un,
    decreases e,
{
    match e {
        Expr::Pre(u, x) => { lemma_flat(cx, *x); assert(flat(e).last() == flat(*x).last()); },
        Expr::Post(u, x) => { lemma_flat(cx, *x); assert(flat(e)[0] == flat(*x)[0]); },
        Expr::Bin(o, l, r) => { lemma_flat(cx, *l); lemma_flat(cx, *r); assert(flat(e)[0] == flat(*l)[0]); assert(flat(e).last() == flat(*r).last()); },
        Expr::Juxt(l, r) => { lemma_flat(cx, *l); lemma_flat(cx, *r); assert(flat(e)[0] == flat(*l)[0]); assert(flat(e).last() == flat(*r).last()); },
        _ => {},
    }
}
pub proof fn lemma_flat_args<N>(cx: Cx<N>, a: Args<N>)
    requires wf_args(cx, a),
    ensures flat_args(a).len() > 0, !(flat_args(a)[0] is Close) && !(flat_args(a)[0] is Comma),
        is_operand(flat_args(a).last()) || flat_args(a).last() is Close || flat_args(a).last() is Un,
    decreases a,
{
    match a {
        Args::One(x) => { lemma_flat(cx, *x); },
        Args::More(b, x) => { lemma_flat_args(cx, *b); lemma_flat(cx, *x); assert(flat_args(a)[0] == flat_args(*b)[0]); assert(flat_args(a).last() == flat(*x).last()); },
    }
}
pub proof fn lemma_spine<N>(cx: Cx<N>, e: Expr<N>)
    requires wf(cx, e),
    ensures closed(e) ==> spine(e) =~= seq![] && head(e) == post(e),
        forall|k: int| 0 <= k < spine(e).len() ==> #[trigger] spine(e)[k] is Un || spine(e)[k] is Bin,
        post(e) == head(e) + rev(spine(e)),
        post(e).len() > 0,
    decreases e,
{
    match e {
        Expr::Pre(u, x) => {
            lemma_spine(cx, *x);
            if !(*x is Atom) { lemma_rev_cons(STok::<N>::Un(u), spine(*x)); assert(post(e) =~= head(e) + rev(spine(e))); }
            else { assert(rev(spine(e)) =~= seq![]); assert(post(e) =~= head(e) + rev(spine(e))); }
        },
        Expr::Bin(o, l, r) => {
            lemma_spine(cx, *r); lemma_spine(cx, *l);
            lemma_rev_cons(STok::<N>::Bin(o), spine(*r)); assert(post(e) =~= head(e) + rev(spine(e)));
        },
        Expr::Juxt(l, r) => {
            lemma_spine(cx, *r); lemma_spine(cx, *l);
            lemma_rev_cons(star::<N>(), spine(*r)); assert(post(e) =~= head(e) + rev(spine(e)));
        },
        Expr::Post(u, x) => { lemma_spine(cx, *x); assert(rev(spine(e)) =~= seq![]); assert(post(e) =~= head(e) + rev(spine(e))); },
        Expr::Paren(o, c, x) => { lemma_spine(cx, *x); assert(rev(spine(e)) =~= seq![]); assert(post(e) =~= head(e) + rev(spine(e))); },
        Expr::Call(f, o, c, a) => { assert(rev(spine(e)) =~= seq![]); assert(post(e) =~= head(e) + rev(spine(e))); },
        _ => { assert(rev(spine(e)) =~= seq![]); assert(post(e) =~= head(e) + rev(spine(e))); },
    }
}
pub proof fn lemma_rev_cons<N>(t: STok<N>, s: Seq<STok<N>>)
    ensures rev(seq![t] + s) == rev(s).push(t),
    decreases s.len(),
{
    let p = seq![t] + s;
    if s.len() == 0 { assert(p =~= seq![t]); assert(p.drop_last() =~= seq![]); assert(rev(p) =~= rev(s).push(t)) by { reveal_with_fuel(rev, 2); } }
    else { assert(p.drop_last() =~= seq![t] + s.drop_last()); lemma_rev_cons(t, s.drop_last()); assert(rev(p) =~= rev(s).push(t)); }
}
/// popping a whole spine
pub proof fn lemma_pop_bin_spine<N>(cx: Cx<N>, out: Seq<STok<N>>, base: Seq<STok<N>>, sp: Seq<STok<N>>, b: SBin<N>)
    requires pops_all(cx, sp, b), base.len() > 0 ==> !pops(cx, base.last(), b),
    ensures s_pop_bin(cx, out, base + sp, b) == (out + rev(sp), base),
    decreases sp.len(),
{
    let ops = base + sp;
    if sp.len() == 0 { assert(ops =~= base); assert(out + rev(sp) =~= out); }
    else {
        assert(ops.last() == sp[sp.len() - 1]); assert(ops.drop_last() =~= base + sp.drop_last());
        assert forall|i: int| 0 <= i < sp.drop_last().len() implies pops(cx, #[trigger] sp.drop_last()[i], b) by { assert(pops(cx, sp[i], b)); }
        lemma_pop_bin_spine(cx, out.push(ops.last()), base, sp.drop_last(), b);
        assert(out.push(ops.last()) + rev(sp.drop_last()) =~= out + rev(sp));
    }
}
pub open spec fn no_open<N>(s: Seq<STok<N>>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] is Un || s[k] is Bin }
pub proof fn lemma_pop_open_spine<N>(out: Seq<STok<N>>, base: Seq<STok<N>>, sp: Seq<STok<N>>)
    requires no_open(sp), base.len() > 0, base.last() is Open,
    ensures s_pop_open(out, base + sp) == (out + rev(sp), base),
    decreases sp.len(),
{
    let ops = base + sp;
    if sp.len() == 0 { assert(ops =~= base); assert(out + rev(sp) =~= out); }
    else {
        assert(ops.last() == sp[sp.len() - 1]); assert(ops.drop_last() =~= base + sp.drop_last());
        assert(no_open(sp.drop_last()));
        lemma_pop_open_spine(out.push(ops.last()), base, sp.drop_last());
        assert(out.push(ops.last()) + rev(sp.drop_last()) =~= out + rev(sp));
    }
}
pub proof fn lemma_drain_spine<N>(out: Seq<STok<N>>, sp: Seq<STok<N>>)
    requires no_open(sp),
    ensures s_drain(out, sp) == Some(out + rev(sp)),
    decreases sp.len(),
{
    if sp.len() == 0 { assert(out + rev(sp) =~= out); }
    else {
        assert(sp.last() == sp[sp.len() - 1]);
        assert(no_open(sp.drop_last()));
        lemma_drain_spine(out.push(sp.last()), sp.drop_last());
        assert(out.push(sp.last()) + rev(sp.drop_last()) =~= out + rev(sp));
    }
}
pub proof fn lemma_under_open<N>(cx: Cx<N>, c: char, e: Expr<N>)
    requires wf(cx, e),
    ensures under(cx, STok::Open(c), e),
    decreases e,
{
    match e { Expr::Post(_, x) => lemma_under_open(cx, c, *x), Expr::Bin(_, l, _) => lemma_under_open(cx, c, *l), Expr::Juxt(l, _) => lemma_under_open(cx, c, *l), _ => {} }
}

pub proof fn lemma_split<N>(toks: Seq<STok<N>>, i: int, a: Seq<STok<N>>, b: Seq<STok<N>>)
    requires at(toks, i, a + b),
    ensures at(toks, i, a), at(toks, i + a.len(), b), a.len() > 0 ==> toks[i + a.len() - 1] == a.last(), b.len() > 0 ==> toks[i + a.len()] == b[0],
{
    let w = a + b;
    assert forall|k: int| 0 <= k < a.len() implies toks[i + k] == #[trigger] a[k] by { assert(w[k] == a[k]); }
    assert forall|k: int| 0 <= k < b.len() implies toks[i + a.len() + k] == #[trigger] b[k] by { assert(w[a.len() + k] == b[k]); }
    if a.len() > 0 { assert(a[a.len() - 1] == a.last()); }
    if b.len() > 0 { assert(toks[i + a.len() + 0] == b[0]); }
}
/// running a then b
pub proof fn lemma_seq<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, a: nat, b: nat, st: St<N>, s1: St<N>)
    requires s_steps(cx, toks, i, a, st) == Some(s1),
    ensures s_steps(cx, toks, i, a + b, st) == s_steps(cx, toks, i + a, b, s1),
{ lemma_steps_add(cx, toks, i, a, b, st); }

pub proof fn lemma_expr<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, st: St<N>)
    requires wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e,
{
    lemma_flat(cx, e); lemma_spine(cx, e);
    match e {
        Expr::Atom(a) => { lemma_atom(cx, toks, i, a, st); },
        Expr::Paren(o, c, x) => { lemma_paren(cx, toks, i, e, o, c, x, st); },
        Expr::Call0(f, o, c) => { lemma_call0(cx, toks, i, f, o, c, st); },
        Expr::Call(f, o, c, a) => { lemma_call(cx, toks, i, e, f, o, c, a, st); },
        Expr::Pre(u, x) => { lemma_pre(cx, toks, i, e, u, x, st); },
        Expr::Post(u, x) => { lemma_post(cx, toks, i, e, u, x, st); },
        Expr::Bin(o, l, r) => { lemma_bin(cx, toks, i, e, o, l, r, st); },
        Expr::Juxt(l, r) => { lemma_juxt(cx, toks, i, e, l, r, st); },
    }
}
proof fn lemma_atom<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, a: STok<N>, st: St<N>)
    requires is_operand(a), at(toks, i, seq![a]), top_ok(cx, st, Expr::Atom(a)),
    ensures after(cx, toks, i, st, s_steps(cx, toks, i, 1, st), seq![a], seq![]),
{
    lemma_one(cx, toks, i, st);
    assert(toks[i + 0] == seq![a][0]);
    let s2 = s_step(cx, toks, i, st).unwrap();
    assert(s2.out =~= st.out + seq![a]);
    assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
    assert(st.ops + Seq::<STok<N>>::empty().push(star()) =~= st.ops.push(star()));
    assert(st.grp.take(st.grp.len() as int) =~= st.grp);
}
proof fn lemma_pre<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, u: Seq<char>, x: Box<Expr<N>>, st: St<N>)
    requires e == Expr::Pre(u, x), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let t = STok::<N>::Un(u);
    lemma_split(toks, i, seq![t], flat(*x));
    assert(toks[i] == t);
    lemma_one(cx, toks, i, st);
    let s1 = s_step(cx, toks, i, st).unwrap();
    assert(s1.ops == st.ops.push(t));
    let n = flat(*x).len();
    lemma_seq(cx, toks, i, 1, n, st, s1);
    lemma_flat(cx, *x); lemma_spine(cx, *x);
    if *x is Atom {
        match *x {
            Expr::Atom(a) => {
                assert(flat(*x) =~= seq![a]);
                assert(n == 1);
                assert(wf(cx, *x)); assert(is_operand(a));
                lemma_one(cx, toks, i + 1, s1);
                assert(toks[i + 1 + 0] == flat(*x)[0]);
                assert(toks[i + 1] == a);
                assert(s1.ops.last() == t);
                assert(un_of(cx, t) is Some);
                assert(s1.ops.drop_last() =~= st.ops);
                assert(head(e) =~= seq![a].push(t)) by { assert(post(*x) =~= seq![a]); }
                assert(s_step(cx, toks, i + 1, s1) is Some);
                let s2 = s_step(cx, toks, i + 1, s1).unwrap();
                assert(s2.out =~= st.out + head(e));
                assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
                assert(st.ops + Seq::<STok<N>>::empty().push(star()) =~= st.ops.push(star()));
                assert(st.grp.take(st.grp.len() as int) =~= st.grp);
            },
            _ => {},
        }
    } else {
        lemma_expr(cx, toks, i + 1, *x, s1);
        let s2 = s_steps(cx, toks, i + 1, n, s1).unwrap();
        assert(s1.ops + spine(*x) =~= st.ops + spine(e));
        assert(s1.ops + spine(*x).push(star()) =~= st.ops + spine(e).push(star()));
    }
}
proof fn lemma_post<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, u: Seq<char>, x: Box<Expr<N>>, st: St<N>)
    requires e == Expr::Post(u, x), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let t = STok::<N>::Un(u); let n = flat(*x).len();
    lemma_split(toks, i, flat(*x), seq![t]);
    assert(seq![t][0] == t);
    lemma_flat(cx, *x); lemma_spine(cx, *x);
    lemma_expr(cx, toks, i, *x, st);
    let s1 = s_steps(cx, toks, i, n, st).unwrap();
    assert(!trig(cx, toks, i + n - 1));
    lemma_seq(cx, toks, i, n, 1, st, s1);
    lemma_one(cx, toks, i + n, s1);
    let s2 = s_step(cx, toks, i + n, s1).unwrap();
    assert(s1.out.len() > 0);
    assert(s2.out =~= st.out + head(e));
    assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
}
proof fn lemma_bin<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, o: Seq<char>, l: Box<Expr<N>>, r: Box<Expr<N>>, st: St<N>)
    requires e == Expr::Bin(o, l, r), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let t = STok::<N>::Bin(o); let n = flat(*l).len(); let m = flat(*r).len();
    let b = (cx.bin)(o).unwrap();
    lemma_split(toks, i, flat(*l) + seq![t], flat(*r));
    lemma_split(toks, i, flat(*l), seq![t]);
    assert(seq![t][0] == t);
    assert((flat(*l) + seq![t]).len() == n + 1);
    lemma_flat(cx, *l); lemma_spine(cx, *l); lemma_flat(cx, *r); lemma_spine(cx, *r);
    lemma_expr(cx, toks, i, *l, st);
    let s1 = s_steps(cx, toks, i, n, st).unwrap();
    assert(!trig(cx, toks, i + n - 1));
    lemma_pop_bin_spine(cx, s1.out, st.ops, spine(*l), b);
    lemma_seq(cx, toks, i, n, 1, st, s1);
    lemma_one(cx, toks, i + n, s1);
    let s2 = s_step(cx, toks, i + n, s1).unwrap();
    assert(s2.out =~= st.out + post(*l));
    assert(s2.ops == st.ops.push(t));
    lemma_seq(cx, toks, i, n + 1, m, st, s2);
    lemma_expr(cx, toks, i + n + 1, *r, s2);
    let s3 = s_steps(cx, toks, i + n + 1, m, s2).unwrap();
    assert(s3.out =~= st.out + head(e));
    assert(s2.ops + spine(*r) =~= st.ops + spine(e));
    assert(s2.ops + spine(*r).push(star()) =~= st.ops + spine(e).push(star()));
    assert(s3.grp.take(st.grp.len() as int) =~= s3.grp.take(s2.grp.len() as int).take(st.grp.len() as int));
}
proof fn lemma_juxt<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, l: Box<Expr<N>>, r: Box<Expr<N>>, st: St<N>)
    requires e == Expr::Juxt(l, r), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let n = flat(*l).len(); let m = flat(*r).len();
    lemma_split(toks, i, flat(*l), flat(*r));
    lemma_flat(cx, *l); lemma_spine(cx, *l); lemma_flat(cx, *r); lemma_spine(cx, *r);
    lemma_expr(cx, toks, i, *l, st);
    let s1 = s_steps(cx, toks, i, n, st).unwrap();
    assert(trig(cx, toks, i + n - 1));
    assert(s1.ops =~= st.ops.push(star()));
    lemma_seq(cx, toks, i, n, m, st, s1);
    lemma_expr(cx, toks, i + n, *r, s1);
    let s3 = s_steps(cx, toks, i + n, m, s1).unwrap();
    assert(s3.out =~= st.out + head(e));
    assert(s1.ops + spine(*r) =~= st.ops + spine(e));
    assert(s1.ops + spine(*r).push(star()) =~= st.ops + spine(e).push(star()));
    assert(s3.grp.take(st.grp.len() as int) =~= s3.grp.take(s1.grp.len() as int).take(st.grp.len() as int));
}
proof fn lemma_paren<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, o: char, c: char, x: Box<Expr<N>>, st: St<N>)
    requires e == Expr::Paren(o, c, x), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let to = STok::<N>::Open(o); let tc = STok::<N>::Close(c); let n = flat(*x).len();
    lemma_split(toks, i, seq![to] + flat(*x), seq![tc]);
    lemma_split(toks, i, seq![to], flat(*x));
    assert((seq![to] + flat(*x)).len() == n + 1);
    assert(seq![tc][0] == tc); assert(toks[i] == to);
    lemma_flat(cx, *x); lemma_spine(cx, *x); lemma_under_open(cx, o, *x);
    assert((seq![to] + flat(*x)).last() == flat(*x).last());
    lemma_one(cx, toks, i, st);
    let s1 = s_step(cx, toks, i, st).unwrap();
    assert(s1.ops == st.ops.push(to));
    lemma_seq(cx, toks, i, 1, n, st, s1);
    lemma_expr(cx, toks, i + 1, *x, s1);
    let s2 = s_steps(cx, toks, i + 1, n, s1).unwrap();
    assert(!trig(cx, toks, i + 1 + n - 1));
    lemma_seq(cx, toks, i, n + 1, 1, st, s2);
    lemma_one(cx, toks, i + n + 1, s2);
    lemma_pop_open_spine(s2.out, s1.ops, spine(*x));
    assert(s1.ops.drop_last() =~= st.ops);
    let s3 = s_step(cx, toks, i + n + 1, s2).unwrap();
    assert(s3.out =~= st.out + head(e));
    assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
    assert(st.ops + Seq::<STok<N>>::empty().push(star()) =~= st.ops.push(star()));
    if st.argc.len() > 0 { assert(s2.grp.drop_last() =~= st.grp); assert(st.grp.take(st.grp.len() as int) =~= st.grp); }
}
proof fn lemma_call0<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, f: Seq<char>, o: char, c: char, st: St<N>)
    requires close_of(o) == Some(c), cx.custom || o == '(', at(toks, i, seq![STok::<N>::Fun(f), STok::Open(o), STok::Close(c)]),
    ensures after(cx, toks, i + 2, st, s_steps(cx, toks, i, 3, st), seq![STok::<N>::Arg(0), STok::Fun(f)], seq![]),
{
    let w = seq![STok::<N>::Fun(f), STok::Open(o), STok::Close(c)];
    assert(toks[i + 0] == w[0]); assert(toks[i + 1] == w[1]); assert(toks[i + 2] == w[2]);
    lemma_one(cx, toks, i, st);
    let s1 = s_step(cx, toks, i, st).unwrap();
    lemma_seq(cx, toks, i, 1, 1, st, s1);
    lemma_one(cx, toks, i + 1, s1);
    let s2 = s_step(cx, toks, i + 1, s1).unwrap();
    lemma_seq(cx, toks, i, 2, 1, st, s2);
    lemma_one(cx, toks, i + 2, s2);
    assert(s2.ops.drop_last() =~= s1.ops); assert(s1.ops.drop_last() =~= st.ops); assert(s1.argc.drop_last() =~= st.argc);
    assert(s2.grp.drop_last() =~= st.grp);
    let s3 = s_step(cx, toks, i + 2, s2).unwrap();
    assert(s3.out =~= st.out + seq![STok::<N>::Arg(0), STok::Fun(f)]);
    assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
    assert(st.ops + Seq::<STok<N>>::empty().push(star()) =~= st.ops.push(star()));
    assert(st.grp.take(st.grp.len() as int) =~= st.grp);
    assert(st.grp.push((i + 1) as nat).take(st.grp.len() as int) =~= st.grp);
}
proof fn lemma_call<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, e: Expr<N>, f: Seq<char>, o: char, c: char, a: Box<Args<N>>, st: St<N>)
    requires e == Expr::Call(f, o, c, a), wf(cx, e), at(toks, i, flat(e)), top_ok(cx, st, e),
    ensures after(cx, toks, i + flat(e).len() - 1, st, s_steps(cx, toks, i, flat(e).len(), st), head(e), spine(e)),
    decreases e, 0nat,
{
    let h = seq![STok::<N>::Fun(f), STok::Open(o)]; let tc = STok::<N>::Close(c); let n = flat_args(*a).len();
    lemma_split(toks, i, h + flat_args(*a), seq![tc]);
    lemma_split(toks, i, h, flat_args(*a));
    assert((h + flat_args(*a)).len() == n + 2);
    assert(seq![tc][0] == tc); assert(toks[i + 0] == h[0]); assert(toks[i + 1] == h[1]);
    lemma_flat_args(cx, *a);
    assert((h + flat_args(*a)).last() == flat_args(*a).last());
    lemma_one(cx, toks, i, st);
    let s1 = s_step(cx, toks, i, st).unwrap();
    lemma_seq(cx, toks, i, 1, 1, st, s1);
    lemma_one(cx, toks, i + 1, s1);
    let s2 = s_step(cx, toks, i + 1, s1).unwrap();
    assert(s2.grp == st.grp.push((i + 1) as nat));
    lemma_seq(cx, toks, i, 2, n, st, s2);
    lemma_args(cx, toks, i + 2, *a, s2);
    let s3 = s_steps(cx, toks, i + 2, n, s2).unwrap();
    lemma_seq(cx, toks, i, n + 2, 1, st, s3);
    lemma_one(cx, toks, i + n + 2, s3);
    lemma_last_arg(cx, *a);
    lemma_pop_open_spine(s3.out, s2.ops, spine(last_arg(*a)));
    assert(s2.ops.drop_last() =~= s1.ops); assert(s1.ops.drop_last() =~= st.ops);
    assert(s3.argc.last() + 1 == nargs(*a)) by { lemma_nargs(*a); }
    assert(s3.argc.drop_last() =~= st.argc);
    assert(s3.grp.drop_last() =~= st.grp);
    let s4 = s_step(cx, toks, i + n + 2, s3).unwrap();
    assert(s4.out =~= st.out + post(e));
    assert(st.ops + Seq::<STok<N>>::empty() =~= st.ops);
    assert(st.ops + Seq::<STok<N>>::empty().push(star()) =~= st.ops.push(star()));
    assert(st.grp.take(st.grp.len() as int) =~= st.grp);
    assert(st.grp.push((i + 1) as nat).take(st.grp.len() as int) =~= st.grp);
}
proof fn lemma_nargs<N>(a: Args<N>) ensures nargs(a) >= 1 decreases a { match a { Args::One(_) => {}, Args::More(b, _) => lemma_nargs(*b) } }
proof fn lemma_last_arg<N>(cx: Cx<N>, a: Args<N>)
    requires wf_args(cx, a),
    ensures no_open(spine(last_arg(a))), wf(cx, last_arg(a)),
{ match a { Args::One(x) => lemma_spine(cx, *x), Args::More(_, x) => lemma_spine(cx, *x) } }
proof fn lemma_args<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, a: Args<N>, st: St<N>)
    requires wf_args(cx, a), at(toks, i, flat_args(a)), in_call(toks, st), i > 0,
        i + flat_args(a).len() < toks.len(), toks[i + flat_args(a).len()] is Comma || toks[i + flat_args(a).len()] is Close,
    ensures after_args(st, s_steps(cx, toks, i, flat_args(a).len(), st), a),
    decreases a, 1nat,
{
    match a {
        Args::One(x) => {
            let n = flat(*x).len();
            lemma_flat(cx, *x); lemma_spine(cx, *x);
            let o = match st.ops.last() { STok::Open(c) => c, _ => ' ' };
            lemma_under_open(cx, o, *x);
            lemma_expr(cx, toks, i, *x, st);
            assert(!trig(cx, toks, i + n - 1));
            let s2 = s_steps(cx, toks, i, n, st).unwrap();
            assert(s2.out + rev(spine(*x)) =~= st.out + post(*x));
            assert(st.argc =~= st.argc.update(st.argc.len() - 1, (st.argc.last() + 1 - 1) as nat));
        },
        Args::More(b, x) => {
            let n = flat_args(*b).len(); let m = flat(*x).len(); let t = STok::<N>::Comma;
            lemma_split(toks, i, flat_args(*b) + seq![t], flat(*x));
            lemma_split(toks, i, flat_args(*b), seq![t]);
            assert((flat_args(*b) + seq![t]).len() == n + 1);
            assert(seq![t][0] == t);
            lemma_flat_args(cx, *b); lemma_flat(cx, *x); lemma_spine(cx, *x); lemma_last_arg(cx, *b); lemma_nargs(*b);
            lemma_args(cx, toks, i, *b, st);
            let s1 = s_steps(cx, toks, i, n, st).unwrap();
            lemma_seq(cx, toks, i, n, 1, st, s1);
            lemma_one(cx, toks, i + n, s1);
            lemma_pop_open_spine(s1.out, st.ops, spine(last_arg(*b)));
            assert(s_comma_ok(toks, s1.grp, i + n));
            let s2 = s_step(cx, toks, i + n, s1).unwrap();
            assert(s2.ops == st.ops);
            assert(s2.out == st.out + post_args(*b));
            lemma_seq(cx, toks, i, n + 1, m, st, s2);
            let o = match st.ops.last() { STok::Open(c) => c, _ => ' ' };
            lemma_under_open(cx, o, *x);
            lemma_expr(cx, toks, i + n + 1, *x, s2);
            assert(!trig(cx, toks, i + n + 1 + m - 1));
            let s3 = s_steps(cx, toks, i + n + 1, m, s2).unwrap();
            assert(s3.out + rev(spine(*x)) =~= st.out + post_args(a));
            assert(s3.argc =~= st.argc.update(st.argc.len() - 1, (st.argc.last() + nargs(a) - 1) as nat));
        },
    }
}
pub proof fn lemma_steps_exec<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires 0 <= i <= toks.len(), s_steps(cx, toks, i, (toks.len() - i) as nat, st) is Some,
    ensures ({ let s2 = s_steps(cx, toks, i, (toks.len() - i) as nat, st).unwrap(); s_exec(cx, toks, i, st) == s_drain(s2.out, s2.ops) }),
    decreases toks.len() - i,
{
    if i < toks.len() { lemma_steps_exec(cx, toks, i + 1, s_step(cx, toks, i, st).unwrap()); }
}
}
/// C01: a well-formed expression converts to the postfix form of its tree
pub proof fn theorem_c01<N>(cx: Cx<N>, e: Expr<N>)
    requires wf(cx, e),
    ensures s_run(cx, flat(e)) == Some(post(e)),
{
    let toks = flat(e);
    assert(at(toks, 0, toks));
    c01::lemma_flat(cx, e); c01::lemma_spine(cx, e);
    c01::lemma_expr(cx, toks, 0, e, st0());
    let s2 = s_steps(cx, toks, 0, toks.len(), st0()).unwrap();
    assert(s2.out =~= head(e)); assert(s2.ops =~= spine(e));
    c01::lemma_steps_exec(cx, toks, 0, st0());
    c01::lemma_drain_spine(s2.out, spine(e));
}
