// ---------------------------------------------------------------- postfix evaluation: code against the machine
pub open spec fn s_top<N>(v: Seq<N>, n: nat) -> Seq<N> { v.subrange(v.len() - n, v.len() as int) }
#[verifier::reject_recursive_types(N)]
pub struct Ev<N> { pub vals: Seq<N>, pub arg: Option<nat> }
/// one postfix token; None = error
pub open spec fn s_ev1<N>(cx: Cx<N>, t: STok<N>, e: Ev<N>) -> Option<Ev<N>> {
    let v = e.vals;
    match t {
        STok::Num(n) => Some(Ev { vals: v.push(n), ..e }),
        STok::Var(s) => match (cx.var)(s) { Some(n) => Some(Ev { vals: v.push(n), ..e }), None => None },
        STok::Con(s) => match (cx.con)(s) { Some(n) => Some(Ev { vals: v.push(n), ..e }), None => None },
        STok::Arg(n) => Some(Ev { arg: Some(n), ..e }),
        STok::Un(s) => match (cx.un)(s) {
            Some(u) => if v.len() >= 1 { match (u.f)(v.last()) { Some(x) => Some(Ev { vals: v.drop_last().push(x), ..e }), None => None } } else { None },
            None => None },
        STok::Bin(s) => match (cx.bin)(s) {
            Some(b) => if v.len() >= 2 {
                match (b.f)(v[v.len() - 2], v.last()) { Some(x) => Some(Ev { vals: v.drop_last().drop_last().push(x), ..e }), None => None } } else { None },
            None => None },
        STok::Fun(s) => match ((cx.fun)(s), e.arg) {
            (Some(f), Some(n)) => if v.len() >= n {
                match f(s_top(v, n)) { Some(x) => Some(Ev { vals: v.subrange(0, v.len() - n).push(x), arg: None }), None => None } } else { None },
            _ => None },
        _ => None,
    }
}
#[verifier::opaque]
pub open spec fn s_eval<N>(cx: Cx<N>, rpn: Seq<STok<N>>, i: int, e: Ev<N>) -> Option<N>
    decreases rpn.len() - i
{
    if i < 0 || i >= rpn.len() { if e.vals.len() == 1 { Some(e.vals[0]) } else { None } } else {
        match s_ev1(cx, rpn[i], e) { None => None, Some(e2) => s_eval(cx, rpn, i + 1, e2) }
    }
}
pub open spec fn s_eval_infix<N>(cx: Cx<N>, toks: Seq<STok<N>>) -> Option<N> {
    match s_run(cx, toks) { Some(rpn) => s_eval(cx, rpn, 0, Ev { vals: seq![], arg: None }), None => None }
}


pub proof fn lemma_eval_step<N>(cx: Cx<N>, rpn: Seq<STok<N>>, i: int, e: Ev<N>)
    ensures
        0 <= i < rpn.len() ==> s_eval(cx, rpn, i, e) == (match s_ev1(cx, rpn[i], e) { None => None, Some(e2) => s_eval(cx, rpn, i + 1, e2) }),
        i >= rpn.len() ==> s_eval(cx, rpn, i, e) == (if e.vals.len() == 1 { Some(e.vals[0]) } else { None }),
{ reveal(s_eval); }
pub open spec fn opt_nat(o: Option<usize>) -> Option<nat> { match o { Some(n) => Some(n as nat), None => None } }
pub proof fn lemma_arg_ok<N>(cx: Cx<N>, toks: Seq<STok<N>>)
    ensures s_run(cx, toks) matches Some(rpn) ==> arg_ok(rpn),
{ theorem_c02(cx, toks); }
pub mod rpn { use super::*; broadcast use super::views::g_views;
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

//@ rewrite shunting_yard::$f ==> super::yard::$f
//@ extract prexel/src/evaluator.rs | fn rpn_eval
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures res_is(r, s_eval_infix(context.cx(), tvs(tokens@))),
//@ start
    let ghost cx = context.cx();
    let ghost target = s_eval_infix(cx, tvs(tokens@));
    proof { lemma_arg_ok(cx, tvs(tokens@)); }
//@ loop 0 before
    assert(values@ =~= seq![]);
//@ loop 0 iter it
//@ loop 0
        invariant
            clone_ok::<N>(), cx == context.cx(), arg_ok(tvs(rpn@)),
            it.seq().len() == rpn@.len(), forall|k: int| 0 <= k < rpn@.len() ==> *(#[trigger] it.seq()[k]) == rpn@[k],
            target == s_eval_infix(cx, tvs(tokens@)),
            target == s_eval(cx, tvs(rpn@), it.index(), Ev { vals: values@, arg: opt_nat(arg_count) }),
            arg_count is Some ==> it.index() < rpn@.len() && tvs(rpn@)[it.index()] is Fun,
//@ loop 0 start
        let ghost v0 = values@; let ghost i0 = it.index();
        proof {
            assert(tvs(rpn@)[i0] == tv(*token));
            lemma_eval_step(cx, tvs(rpn@), i0, Ev { vals: v0, arg: opt_nat(arg_count) });
        }
//@ loop 0 after
        proof { lemma_eval_step(cx, tvs(rpn@), rpn@.len() as int, Ev { vals: values@, arg: opt_nat(arg_count) }); }
//@ loop 1 after
        proof {
            assert(args@.reverse() =~= s_top(v0, n as nat));
            assert(values@ =~= v0.subrange(0, v0.len() - n));
        }
//@ loop 1 iter it2
//@ loop 1
        invariant
            clone_ok::<N>(), it2.index() <= v0.len(), it2.seq().len() == n,
            values@ == v0.subrange(0, v0.len() - it2.index()),
            args@ == Seq::new(it2.index() as nat, |j: int| v0[v0.len() - 1 - j]),
            // as outside
            cx == context.cx(), arg_ok(tvs(rpn@)), 0 <= i0 < rpn@.len(),
            target == s_eval_infix(cx, tvs(tokens@)),
            target == (match s_ev1(cx, tvs(rpn@)[i0], Ev { vals: v0, arg: opt_nat(arg_count) }) { None => None, Some(e2) => s_eval(cx, tvs(rpn@), i0 + 1, e2) }),
            tvs(rpn@)[i0] == STok::<N>::Fun(name@), (cx.fun)(name@) is Some, arg_count == Some(n),
            forall|a: Seq<N>| #[trigger] (cx.fun)(name@).unwrap()(a) == func.s_call(a),
//@ end
}
