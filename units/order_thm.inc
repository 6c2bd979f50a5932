/// how tightly an arithmetic expression holds together: 1 sum, 2 product, 3 power, 4 signed or complete operand
pub open spec fn tight<N>(e: Expr<N>) -> int { match e { Expr::Bin(o, _, _) => rank(o), Expr::Juxt(_, _) => 0, _ => 4 } }
/// an operand with no sign in front of it whose first token is not a bare number or name followed by `!`
pub open spec fn guarded<N>(e: Expr<N>) -> bool decreases e { match e { Expr::Atom(_) => false, Expr::Post(_, x) => guarded(*x), _ => true } }
/// The tree arithmetic gives to an expression: parentheses and calls hold whole expressions; `!` applies to a complete operand;
/// a sign applies to the operand right after it; powers group from the right; products, then sums, from the left.
pub open spec fn arith<N>(cx: Cx<N>, e: Expr<N>) -> bool decreases e {
    match e {
        Expr::Atom(a) => is_operand(a),
        Expr::Paren(o, c, x) => close_of(o) == Some(c) && arith(cx, *x),
        Expr::Call0(f, o, c) => o == '(' && c == ')',
        Expr::Call(f, o, c, a) => o == '(' && c == ')' && arith_args(cx, *a),
        Expr::Post(u, x) => u == seq!['!'] && (cx.un)(u) is Some && arith(cx, *x) && tight(*x) == 4 && !(*x is Pre),
        Expr::Pre(u, x) => is_sign(u) && arith(cx, *x) && tight(*x) == 4 && (*x is Atom || guarded(*x)),
        Expr::Bin(o, l, r) => rank(o) > 0 && arith(cx, *l) && arith(cx, *r)
            && (if rank(o) == 3 { tight(*l) == 4 && tight(*r) >= 3 } else { tight(*l) >= rank(o) && tight(*r) > rank(o) }),
        Expr::Juxt(_, _) => false,
    }
}
pub open spec fn arith_args<N>(cx: Cx<N>, a: Args<N>) -> bool decreases a {
    match a { Args::One(x) => arith(cx, *x), Args::More(b, x) => arith_args(cx, *b) && arith(cx, *x) }
}
pub mod order { use super::*;
/// what is pending after an arithmetic expression ranks at least as its loosest operator
proof fn lemma_spine<N>(cx: Cx<N>, e: Expr<N>)
    requires usual(cx), arith(cx, e),
    ensures forall|i: int| 0 <= i < spine(e).len() ==> match #[trigger] spine(e)[i] { STok::Un(_) => true, STok::Bin(o) => rank(o) >= tight(e) && rank(o) > 0, _ => false },
    decreases e,
{
    match e {
        Expr::Pre(u, x) => {
            lemma_spine(cx, *x);
            if !(*x is Atom) {
                assert forall|i: int| 0 <= i < spine(e).len() implies match #[trigger] spine(e)[i] { STok::Un(_) => true, STok::Bin(o) => rank(o) >= tight(e) && rank(o) > 0, _ => false } by {
                    if i > 0 { assert(spine(e)[i] == spine(*x)[i - 1]); }
                }
            }
        },
        Expr::Bin(o, l, r) => {
            lemma_spine(cx, *r);
            assert forall|i: int| 0 <= i < spine(e).len() implies match #[trigger] spine(e)[i] { STok::Un(_) => true, STok::Bin(o) => rank(o) >= tight(e) && rank(o) > 0, _ => false } by {
                if i > 0 { assert(spine(e)[i] == spine(*r)[i - 1]); }
            }
        },
        _ => {},
    }
}
/// no operator on the left edge of `e` is weaker than `e`'s loosest one
proof fn lemma_under_bin<N>(cx: Cx<N>, p: Seq<char>, e: Expr<N>)
    requires usual(cx), arith(cx, e), rank(p) > 0, tight(e) > rank(p) || (rank(p) == 3 && tight(e) >= 3),
    ensures under(cx, STok::Bin(p), e),
    decreases e,
{
    match e {
        Expr::Post(_, x) => { lemma_under_bin(cx, p, *x); },
        Expr::Bin(o, l, r) => {
            lemma_under_bin(cx, p, *l);
            assert((cx.bin)(o) is Some && (cx.bin)(p) is Some);
            assert((cx.bin)(p).unwrap().prec < (cx.bin)(o).unwrap().prec <==> rank(p) < rank(o));
            assert((cx.bin)(o).unwrap().prec < (cx.bin)(p).unwrap().prec <==> rank(o) < rank(p));
        },
        _ => {},
    }
}
proof fn lemma_under_un<N>(cx: Cx<N>, u: Seq<char>, e: Expr<N>)
    requires arith(cx, e), tight(e) == 4, guarded(e),
    ensures under(cx, STok::Un(u), e),
    decreases e,
{
    match e { Expr::Post(_, x) => { lemma_under_un(cx, u, *x); }, _ => {} }
}
/// the tree of arithmetic is the one the context's precedences prescribe
pub proof fn lemma_arith_wf<N>(cx: Cx<N>, e: Expr<N>)
    requires usual(cx), arith(cx, e),
    ensures wf(cx, e),
    decreases e,
{
    match e {
        Expr::Paren(_, _, x) => { lemma_arith_wf(cx, *x); },
        Expr::Call(_, _, _, a) => { lemma_arith_wf_args(cx, *a); },
        Expr::Post(u, x) => { lemma_arith_wf(cx, *x); },
        Expr::Pre(u, x) => { lemma_arith_wf(cx, *x); if !(*x is Atom) { lemma_under_un(cx, u, *x); } },
        Expr::Bin(o, l, r) => {
            lemma_arith_wf(cx, *l); lemma_arith_wf(cx, *r);
            lemma_under_bin(cx, o, *r); lemma_spine(cx, *l);
            let b = (cx.bin)(o).unwrap();
            assert forall|i: int| 0 <= i < spine(*l).len() implies pops(cx, #[trigger] spine(*l)[i], b) by {
                match spine(*l)[i] { STok::Bin(p) => {
                    assert((cx.bin)(p) is Some);
                    assert((cx.bin)(p).unwrap().prec < (cx.bin)(o).unwrap().prec <==> rank(p) < rank(o));
                    assert((cx.bin)(o).unwrap().prec < (cx.bin)(p).unwrap().prec <==> rank(o) < rank(p));
                }, _ => {} }
            }
        },
        _ => {},
    }
}
proof fn lemma_arith_wf_args<N>(cx: Cx<N>, a: Args<N>)
    requires usual(cx), arith_args(cx, a),
    ensures wf_args(cx, a),
    decreases a,
{
    match a { Args::One(x) => { lemma_arith_wf(cx, *x); }, Args::More(b, x) => { lemma_arith_wf_args(cx, *b); lemma_arith_wf(cx, *x); } }
}
/// C23: under the usual operator table, an arithmetic expression has the value of its arithmetic tree
pub proof fn theorem_c23<N>(cx: Cx<N>, e: Expr<N>)
    requires usual(cx), arith(cx, e),
    ensures s_eval_infix(cx, flat(e)) == den(cx, e), s_run(cx, flat(e)) == Some(post(e)),
{
    lemma_arith_wf(cx, e); theorem_c03(cx, e); theorem_c01(cx, e);
}
}
