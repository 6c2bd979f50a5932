/// every argument count is immediately followed by its function
pub open spec fn arg_ok<N>(s: Seq<STok<N>>) -> bool { forall|i: int| 0 <= i < s.len() && #[trigger] s[i] is Arg ==> i + 1 < s.len() && s[i + 1] is Fun }
// ---------------------------------------------------------------- C02: what acceptance implies
pub open spec fn is_operand<N>(t: STok<N>) -> bool { t is Num || t is Var || t is Con }
pub open spec fn clean<N>(s: Seq<STok<N>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_operand(#[trigger] s[i]) || s[i] is Fun || s[i] is Bin || s[i] is Un || s[i] is Arg
}
pub open spec fn opsok<N>(s: Seq<STok<N>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Fun || s[i] is Bin || s[i] is Un || s[i] is Open
}
/// operands of a token sequence, in order
pub open spec fn operands<N>(s: Seq<STok<N>>) -> Seq<STok<N>> decreases s.len() {
    if s.len() == 0 { seq![] } else if is_operand(s.last()) { operands(s.drop_last()).push(s.last()) } else { operands(s.drop_last()) }
}
pub open spec fn cnt<N>(s: Seq<STok<N>>, t: STok<N>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { cnt(s.drop_last(), t) + if s.last() == t { 1nat } else { 0 } }
}
pub open spec fn opens<N>(s: Seq<STok<N>>) -> Seq<STok<N>> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.last() is Open { opens(s.drop_last()).push(s.last()) } else { opens(s.drop_last()) }
}
pub open spec fn nfun<N>(s: Seq<STok<N>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nfun(s.drop_last()) + if s.last() is Fun { 1nat } else { 0 } }
}
/// opening symbols above the deepest pending function
pub open spec fn mop<N>(s: Seq<STok<N>>) -> nat decreases s.len() {
    if s.len() == 0 || nfun(s.drop_last()) == 0 { 0 } else { mop(s.drop_last()) + if s.last() is Open { 1nat } else { 0 } }
}
/// indices of the grouping symbols open after the first i tokens (None: a closing symbol had no partner)
pub open spec fn istk<N>(toks: Seq<STok<N>>, i: int) -> Option<Seq<int>> decreases i {
    if i <= 0 { Some(seq![]) } else {
        match istk(toks, i - 1) {
            None => None,
            Some(s) => match toks[i - 1] {
                STok::Open(_) => Some(s.push(i - 1)),
                STok::Close(d) => if s.len() > 0 && (toks[s.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(s.drop_last()) } else { None },
                _ => Some(s),
            },
        }
    }
}
pub open spec fn balanced<N>(toks: Seq<STok<N>>) -> bool { istk(toks, toks.len() as int) == Some(Seq::<int>::empty()) }
/// comma j lies directly in the argument list of a function call, between two arguments
pub open spec fn comma_ok<N>(toks: Seq<STok<N>>, j: int) -> bool {
    &&& istk(toks, j) matches Some(s) && s.len() > 0 && s.last() >= 1 && toks[s.last() - 1] is Fun
    // ... and no argument beside it is empty
    &&& j >= 1 && !(toks[j - 1] is Open) && !(toks[j - 1] is Comma) && !(j + 1 < toks.len() && toks[j + 1] is Close)
}
pub open spec fn commas_ok<N>(toks: Seq<STok<N>>, i: int) -> bool {
    forall|j: int| 0 <= j < i && #[trigger] toks[j] is Comma ==> comma_ok(toks, j)
}
pub open spec fn stk_match<N>(toks: Seq<STok<N>>, s: Seq<int>, o: Seq<STok<N>>) -> bool {
    s.len() == o.len() && forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < toks.len() && toks[s[k]] == o[k]
}
pub open spec fn grp_match(grp: Seq<nat>, s: Seq<int>, m: nat) -> bool {
    grp.len() >= m && s.len() >= m && forall|k: int| 0 <= k < m ==> (#[trigger] grp[grp.len() - 1 - k]) == s[s.len() - 1 - k]
}
/// operators that conversion must neither add nor lose
pub open spec fn kept<N>(cx: Cx<N>, t: STok<N>) -> bool { t is Un || t is Fun || (t is Bin && (!cx.imul || t != star::<N>())) }
pub open spec fn strict<N>(ops: Seq<STok<N>>) -> bool {
    forall|p: int| 0 <= p < ops.len() && (#[trigger] ops[p]) is Fun ==> p + 1 < ops.len() && ops[p + 1] is Open
}
pub open spec fn inv0<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre: Seq<STok<N>>, out: Seq<STok<N>>, ops: Seq<STok<N>>) -> bool {
    &&& clean(out) && opsok(ops) && arg_ok(out)
    &&& operands(out) == operands(pre)
    &&& forall|t: STok<N>| kept(cx, t) ==> cnt(out, t) + cnt(ops, t) == #[trigger] cnt(pre, t)
}
pub open spec fn inv1<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, ops: Seq<STok<N>>, argc: Seq<nat>, grp: Seq<nat>) -> bool {
    &&& istk(toks, i) is Some
    &&& stk_match(toks, istk(toks, i).unwrap(), opens(ops))
    &&& commas_ok(toks, i)
    &&& argc.len() == nfun(ops)
    &&& grp_match(grp, istk(toks, i).unwrap(), mop(ops))
}
pub open spec fn inv<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>) -> bool {
    &&& 0 <= i <= toks.len()
    &&& inv0(cx, toks, i, toks.take(i), st.out, st.ops)
    &&& inv1(cx, toks, i, st.ops, st.argc, st.grp)
    &&& (strict(st.ops) || (i > 0 && st.ops.len() > 0 && st.ops.last() is Fun && strict(st.ops.drop_last()) && s_fun_ok(cx, toks, i - 1)))
}

pub mod c02 { use super::*;
pub proof fn lemma_push<N>(s: Seq<STok<N>>, t: STok<N>)
    ensures
        operands(s.push(t)) == (if is_operand(t) { operands(s).push(t) } else { operands(s) }),
        forall|u: STok<N>| #[trigger] cnt(s.push(t), u) == cnt(s, u) + if t == u { 1nat } else { 0 },
        opens(s.push(t)) == (if t is Open { opens(s).push(t) } else { opens(s) }),
        nfun(s.push(t)) == nfun(s) + if t is Fun { 1nat } else { 0 },
        mop(s.push(t)) == (if nfun(s) == 0 { 0 } else { mop(s) + if t is Open { 1nat } else { 0 } }),
        clean(s) && (is_operand(t) || t is Fun || t is Bin || t is Un || t is Arg) ==> clean(s.push(t)),
        opsok(s) && (t is Fun || t is Bin || t is Un || t is Open) ==> opsok(s.push(t)),
        arg_ok(s) && !(t is Arg) ==> arg_ok(s.push(t)),
        strict(s) && !(t is Fun) ==> strict(s.push(t)),
{
    let p = s.push(t);
    assert(p.drop_last() =~= s); assert(p.last() == t);
    assert forall|u: STok<N>| #[trigger] cnt(p, u) == cnt(s, u) + (if t == u { 1nat } else { 0 }) by { assert(p.drop_last() =~= s); }
    if arg_ok(s) && !(t is Arg) {
        assert forall|i: int| 0 <= i < p.len() && #[trigger] p[i] is Arg implies i + 1 < p.len() && p[i + 1] is Fun by {
            assert(s[i] is Arg); assert(s[i + 1] is Fun);
        }
    }
    if strict(s) && !(t is Fun) {
        assert forall|q: int| 0 <= q < p.len() && (#[trigger] p[q]) is Fun implies q + 1 < p.len() && p[q + 1] is Open by { assert(s[q] is Fun); assert(s[q + 1] is Open); }
    }
}
/// moving the top of the operator stack to the output
pub proof fn lemma_move<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre: Seq<STok<N>>, out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, grp: Seq<nat>)
    requires inv0(cx, toks, i, pre, out, ops), inv1(cx, toks, i, ops, argc, grp), strict(ops), ops.len() > 0, !(ops.last() is Open),
    ensures inv0(cx, toks, i, pre, out.push(ops.last()), ops.drop_last()), inv1(cx, toks, i, ops.drop_last(), argc, grp), strict(ops.drop_last()), !(ops.last() is Fun),
{
    let t = ops.last(); let o = ops.drop_last();
    assert(ops[ops.len() - 1] == t);
    assert(!(t is Fun));
    lemma_push(out, t); lemma_push(o, t); assert(o.push(t) =~= ops);
    assert forall|p: int| 0 <= p < o.len() && (#[trigger] o[p]) is Fun implies p + 1 < o.len() && o[p + 1] is Open by { assert(ops[p] is Fun); }
    assert forall|p: int| 0 <= p < o.len() implies (#[trigger] o[p]) is Fun || o[p] is Bin || o[p] is Un || o[p] is Open by { assert(ops[p] == o[p]); }
    assert forall|u: STok<N>| kept(cx, u) implies cnt(out.push(t), u) + cnt(o, u) == #[trigger] cnt(pre, u) by {
        assert(cnt(out, u) + cnt(ops, u) == cnt(pre, u));
    }
}
pub proof fn lemma_pop_bin<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre: Seq<STok<N>>, out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, grp: Seq<nat>, b: SBin<N>)
    requires inv0(cx, toks, i, pre, out, ops), inv1(cx, toks, i, ops, argc, grp), strict(ops),
    ensures ({ let p = s_pop_bin(cx, out, ops, b); inv0(cx, toks, i, pre, p.0, p.1) && inv1(cx, toks, i, p.1, argc, grp) && strict(p.1) }),
    decreases ops.len(),
{
    if ops.len() > 0 && pops(cx, ops.last(), b) {
        lemma_move(cx, toks, i, pre, out, ops, argc, grp);
        lemma_pop_bin(cx, toks, i, pre, out.push(ops.last()), ops.drop_last(), argc, grp, b);
    }
}
pub proof fn lemma_pop_open<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre: Seq<STok<N>>, out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, grp: Seq<nat>)
    requires inv0(cx, toks, i, pre, out, ops), inv1(cx, toks, i, ops, argc, grp), strict(ops),
    ensures ({ let p = s_pop_open(out, ops); inv0(cx, toks, i, pre, p.0, p.1) && inv1(cx, toks, i, p.1, argc, grp) && strict(p.1) && (p.1.len() > 0 ==> p.1.last() is Open) }),
    decreases ops.len(),
{
    if ops.len() > 0 && !(ops.last() is Open) {
        lemma_move(cx, toks, i, pre, out, ops, argc, grp);
        lemma_pop_open(cx, toks, i, pre, out.push(ops.last()), ops.drop_last(), argc, grp);
    }
}
/// a pending function has an opening symbol above it
pub proof fn lemma_mop_pos<N>(ops: Seq<STok<N>>)
    requires strict(ops), nfun(ops) > 0,
    ensures mop(ops) > 0,
    decreases ops.len(),
{
    let o = ops.drop_last(); let t = ops.last();
    assert(ops[ops.len() - 1] == t);
    if nfun(o) == 0 { assert(t is Fun); assert(false); }
    if !(t is Open) {
        assert forall|p: int| 0 <= p < o.len() && (#[trigger] o[p]) is Fun implies p + 1 < o.len() && o[p + 1] is Open by { assert(ops[p] is Fun); }
        lemma_mop_pos(o);
    }
}
pub proof fn lemma_operand<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, is_operand(toks[i]),
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
        let o1 = st.out.push(t);
        assert(inv0(cx, toks, i + 1, pre2, o1, st.ops)) by {
            assert forall|u: STok<N>| kept(cx, u) implies cnt(o1, u) + cnt(st.ops, u) == #[trigger] cnt(pre2, u) by { assert(cnt(st.out, u) + cnt(st.ops, u) == cnt(pre, u)); }
        }
        assert(inv1(cx, toks, i + 1, st.ops, st.argc, st.grp));
        if st.ops.len() > 0 && un_of(cx, st.ops.last()) is Some { lemma_move(cx, toks, i + 1, pre2, o1, st.ops, st.argc, st.grp); }
        assert(inv(cx, toks, i + 1, s2));
}
pub proof fn lemma_bin<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Bin,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
    let name = match t { STok::Bin(n) => n, _ => seq![] };
        let b = (cx.bin)(name).unwrap();
        lemma_pop_bin(cx, toks, i, pre, st.out, st.ops, st.argc, st.grp, b);
        let p = s_pop_bin(cx, st.out, st.ops, b);
        lemma_push(p.1, t);
        assert forall|u: STok<N>| kept(cx, u) implies cnt(p.0, u) + cnt(p.1.push(t), u) == #[trigger] cnt(pre2, u) by { assert(cnt(p.0, u) + cnt(p.1, u) == cnt(pre, u)); }
        assert(inv(cx, toks, i + 1, s2));
}
pub proof fn lemma_un<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Un,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
    let name = match t { STok::Un(n) => n, _ => seq![] };
        assert forall|u: STok<N>| kept(cx, u) implies cnt(s2.out, u) + cnt(s2.ops, u) == #[trigger] cnt(pre2, u) by { assert(cnt(st.out, u) + cnt(st.ops, u) == cnt(pre, u)); }
        assert(inv(cx, toks, i + 1, s2));
}
pub proof fn lemma_fun<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Fun,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
    let name = match t { STok::Fun(n) => n, _ => seq![] };
        assert forall|u: STok<N>| kept(cx, u) implies cnt(s2.out, u) + cnt(s2.ops, u) == #[trigger] cnt(pre2, u) by { assert(cnt(st.out, u) + cnt(st.ops, u) == cnt(pre, u)); }
        assert(s2.ops.drop_last() =~= st.ops);
        assert(inv(cx, toks, i + 1, s2));
}
pub proof fn lemma_open<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Open,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
        assert forall|u: STok<N>| kept(cx, u) implies cnt(s2.out, u) + cnt(s2.ops, u) == #[trigger] cnt(pre2, u) by { assert(cnt(st.out, u) + cnt(st.ops, u) == cnt(pre, u)); }
        if !strict(st.ops) {
            let o = st.ops.drop_last();
            assert forall|q: int| 0 <= q < s2.ops.len() && (#[trigger] s2.ops[q]) is Fun implies q + 1 < s2.ops.len() && s2.ops[q + 1] is Open by {
                if q < o.len() { assert(o[q] is Fun); assert(o[q + 1] is Open); assert(s2.ops[q + 1] == o[q + 1]); }
            }
        }
        assert(strict(s2.ops));
        let m = mop(st.ops);
        if st.argc.len() > 0 {
            assert(mop(s2.ops) == m + 1);
            assert forall|k: int| 0 <= k < m + 1 implies (#[trigger] s2.grp[s2.grp.len() - 1 - k]) == si.push(i)[si.len() - k] by {
                if k > 0 { assert(st.grp[st.grp.len() - 1 - (k - 1)] == si[si.len() - 1 - (k - 1)]); }
            }
        }
        assert(inv1(cx, toks, i + 1, s2.ops, s2.argc, s2.grp));
        assert(inv(cx, toks, i + 1, s2));
}
/// after popping the group's opening symbol `top`: everything but the function handling
pub proof fn lemma_close_group<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, d: char, out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, grp: Seq<nat>)
    requires inv0(cx, toks, i, toks.take(i), out, ops), inv1(cx, toks, i, ops, argc, grp), strict(ops), 0 <= i < toks.len(),
        toks[i] == STok::<N>::Close(d), ops.len() > 0, ops.last() is Open, ops.last() matches STok::Open(c) && close_of(c) == Some(d),
    ensures ({
        let below = ops.drop_last(); let si = istk(toks, i).unwrap();
        &&& inv0(cx, toks, i + 1, toks.take(i + 1), out, below)
        &&& si.len() > 0 && istk(toks, i + 1) == Some(si.drop_last())
        &&& stk_match(toks, si.drop_last(), opens(below))
        &&& commas_ok(toks, i + 1)
        &&& argc.len() == nfun(below)
        &&& nfun(below) == nfun(ops)
        &&& (nfun(below) > 0 ==> mop(ops) == mop(below) + 1)
        &&& (nfun(below) == 0 ==> mop(below) == 0 && mop(ops) == 0)
        &&& grp_match(grp, si, mop(ops))
        &&& strict(below) || (below.len() > 0 && below.last() is Fun && strict(below.drop_last()))
    }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let si = istk(toks, i).unwrap();
    let below = ops.drop_last(); let top = ops.last();
    lemma_push(below, top); assert(below.push(top) =~= ops);
    assert(opens(ops) == opens(below).push(top));
    assert(opens(below) =~= opens(ops).drop_last());
    assert(toks[si.last()] == top) by { assert(toks[si[si.len() - 1]] == opens(ops)[si.len() - 1]); }
    assert(istk(toks, i + 1) == Some(si.drop_last()));
    assert forall|k: int| 0 <= k < si.drop_last().len() implies 0 <= #[trigger] si.drop_last()[k] < toks.len() && toks[si.drop_last()[k]] == opens(below)[k] by {
        assert(toks[si[k]] == opens(ops)[k]);
    }
    assert forall|u: STok<N>| kept(cx, u) implies cnt(out, u) + cnt(below, u) == #[trigger] cnt(pre2, u) by { assert(cnt(out, u) + cnt(ops, u) == cnt(pre, u)); }
    assert forall|q: int| 0 <= q < below.len() implies (#[trigger] below[q]) is Fun || below[q] is Bin || below[q] is Un || below[q] is Open by { assert(ops[q] == below[q]); }
    if below.len() > 0 && below.last() is Fun {
        let b2 = below.drop_last();
        assert forall|q: int| 0 <= q < b2.len() && (#[trigger] b2[q]) is Fun implies q + 1 < b2.len() && b2[q + 1] is Open by {
            assert(ops[q] is Fun); assert(ops[q + 1] is Open);
            if q + 1 == b2.len() { assert(ops[q + 1] == below.last()); }
            assert(b2[q + 1] == ops[q + 1]);
        }
    } else {
        assert forall|q: int| 0 <= q < below.len() && (#[trigger] below[q]) is Fun implies q + 1 < below.len() && below[q + 1] is Open by {
            assert(ops[q] is Fun); assert(ops[q + 1] is Open);
            if q + 1 == below.len() { assert(below.last() == below[q]); }
            assert(below[q + 1] == ops[q + 1]);
        }
    }
}
pub proof fn lemma_close_call<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre2: Seq<STok<N>>, out: Seq<STok<N>>, below: Seq<STok<N>>, n: nat)
    requires inv0(cx, toks, i, pre2, out, below), below.len() > 0, below.last() is Fun,
    ensures inv0(cx, toks, i, pre2, out.push(STok::Arg(n)).push(below.last()), below.drop_last()),
        nfun(below) == nfun(below.drop_last()) + 1, opens(below) == opens(below.drop_last()),
        nfun(below.drop_last()) > 0 ==> mop(below) == mop(below.drop_last()),
        nfun(below.drop_last()) == 0 ==> mop(below) == 0 && mop(below.drop_last()) == 0,
{
    let f = below.last(); let b2 = below.drop_last(); let count = STok::<N>::Arg(n);
    lemma_push(b2, f); assert(b2.push(f) =~= below);
    let o1 = out.push(count); let o2 = o1.push(f);
    lemma_push(out, count); lemma_push(o1, f);
    assert forall|q: int| 0 <= q < o2.len() && #[trigger] o2[q] is Arg implies q + 1 < o2.len() && o2[q + 1] is Fun by {
        if q < out.len() { assert(out[q] is Arg); assert(out[q + 1] is Fun); }
    }
    assert forall|u: STok<N>| kept(cx, u) implies cnt(o2, u) + cnt(b2, u) == #[trigger] cnt(pre2, u) by { assert(cnt(out, u) + cnt(below, u) == cnt(pre2, u)); }
    assert forall|q: int| 0 <= q < b2.len() implies (#[trigger] b2[q]) is Fun || b2[q] is Bin || b2[q] is Un || b2[q] is Open by { assert(below[q] == b2[q]); }
    lemma_mop0(b2);
}
pub proof fn lemma_mop0<N>(s: Seq<STok<N>>) ensures nfun(s) == 0 ==> mop(s) == 0 { }
pub proof fn lemma_close<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Close,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let d = match toks[i] { STok::Close(d) => d, _ => ' ' };
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    if !strict(st.ops) {
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false);
    }
    lemma_pop_open(cx, toks, i, pre, st.out, st.ops, st.argc, st.grp);
    let p = s_pop_open(st.out, st.ops);
    let below = p.1.drop_last();
    lemma_close_group(cx, toks, i, d, p.0, p.1, st.argc, st.grp);
    if st.argc.len() > 0 { lemma_mop_pos(p.1); lemma_grp_drop(st.grp, si, mop(p.1)); }
    if below.len() > 0 && below.last() is Fun {
        let n = if i > 0 && toks[i - 1] is Open { 0nat } else { st.argc.last() + 1 };
        lemma_close_call(cx, toks, i + 1, pre2, p.0, below, n);
        lemma_mop0(s2.ops);
        assert(s2.argc.len() == nfun(s2.ops));
        assert(grp_match(s2.grp, si.drop_last(), mop(s2.ops)));
    } else {
        assert(s2.ops == below);
        assert(grp_match(s2.grp, si.drop_last(), mop(s2.ops)));
    }
}
pub proof fn lemma_comma<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_consume(cx, toks, i, st) is Some, toks[i] is Comma,
    ensures ({ let s2 = s_consume(cx, toks, i, st).unwrap(); inv(cx, toks, i + 1, s2) && strict(s2.ops) }),
{
    let t = toks[i];
    let pre = toks.take(i); let pre2 = toks.take(i + 1);
    assert(pre2 =~= pre.push(t)); lemma_push(pre, t);
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let si = istk(toks, i).unwrap();
    lemma_push(st.out, t); lemma_push(st.ops, t);
    assert(istk(toks, i + 1) == match t {
        STok::Open(_) => Some(si.push(i)),
        STok::Close(d) => if si.len() > 0 && (toks[si.last()] matches STok::Open(c) && close_of(c) == Some(d)) { Some(si.drop_last()) } else { None },
        _ => Some(si) });
    if !strict(st.ops) {
        // a function was just pushed: only an opening symbol can follow
        assert(toks[i] is Open || toks[i] == STok::<N>::Close('('));
        if t is Close { lemma_no_close_paren(st.out, st.ops, st.argc, toks[i - 1] is Open); assert(false); }
    }
        lemma_mop_pos(st.ops);
        assert(st.grp[st.grp.len() - 1 - 0] == si[si.len() - 1 - 0]);
        assert(comma_ok(toks, i));
        lemma_pop_open(cx, toks, i, pre, st.out, st.ops, st.argc, st.grp);
        let p = s_pop_open(st.out, st.ops);
        assert forall|u: STok<N>| kept(cx, u) implies cnt(p.0, u) + cnt(p.1, u) == #[trigger] cnt(pre2, u) by { assert(cnt(p.0, u) + cnt(p.1, u) == cnt(pre, u)); }
        assert(inv(cx, toks, i + 1, s2));
}
pub proof fn lemma_step<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), i < toks.len(), s_step(cx, toks, i, st) is Some,
    ensures inv(cx, toks, i + 1, s_step(cx, toks, i, st).unwrap()),
{
    let s2 = s_consume(cx, toks, i, st).unwrap();
    let pre2 = toks.take(i + 1);
    if is_operand(toks[i]) { lemma_operand(cx, toks, i, st); }
    if toks[i] is Bin { lemma_bin(cx, toks, i, st); }
    if toks[i] is Un { lemma_un(cx, toks, i, st); }
    if toks[i] is Fun { lemma_fun(cx, toks, i, st); }
    if toks[i] is Open { lemma_open(cx, toks, i, st); }
    if toks[i] is Close { lemma_close(cx, toks, i, st); }
    if toks[i] is Comma { lemma_comma(cx, toks, i, st); }
    if trig(cx, toks, i) {
        let s3 = s_step(cx, toks, i, st).unwrap();
        lemma_push(s2.ops, star::<N>());
        assert forall|u: STok<N>| kept(cx, u) implies cnt(s3.out, u) + cnt(s3.ops, u) == #[trigger] cnt(pre2, u) by { assert(cnt(s2.out, u) + cnt(s2.ops, u) == cnt(pre2, u)); }
    }
}
pub proof fn lemma_grp_drop(grp: Seq<nat>, s: Seq<int>, m: nat)
    requires grp_match(grp, s, m), m > 0,
    ensures grp_match(grp.drop_last(), s.drop_last(), (m - 1) as nat),
{
    let g2 = grp.drop_last(); let s2 = s.drop_last();
    assert forall|k: int| 0 <= k < m - 1 implies (#[trigger] g2[g2.len() - 1 - k]) == s2[s2.len() - 1 - k] by {
        assert(grp[grp.len() - 1 - (k + 1)] == s[s.len() - 1 - (k + 1)]);
    }
}
pub proof fn lemma_no_close_paren<N>(out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, e: bool)
    ensures s_close(out, ops, argc, '(', e) is None,
{ }
pub proof fn lemma_drain<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, pre: Seq<STok<N>>, out: Seq<STok<N>>, ops: Seq<STok<N>>)
    requires inv0(cx, toks, i, pre, out, ops), strict(ops), s_drain(out, ops) is Some,
    ensures inv0(cx, toks, i, pre, s_drain(out, ops).unwrap(), seq![]), opens(ops).len() == 0,
    decreases ops.len(),
{
    if ops.len() == 0 { assert(ops =~= seq![]); } else {
        let t = ops.last(); let o = ops.drop_last();
        assert(ops[ops.len() - 1] == t);
        lemma_push(out, t); lemma_push(o, t); assert(o.push(t) =~= ops);
        assert forall|p: int| 0 <= p < o.len() && (#[trigger] o[p]) is Fun implies p + 1 < o.len() && o[p + 1] is Open by { assert(ops[p] is Fun); }
        assert forall|p: int| 0 <= p < o.len() implies (#[trigger] o[p]) is Fun || o[p] is Bin || o[p] is Un || o[p] is Open by { assert(ops[p] == o[p]); }
        assert forall|u: STok<N>| kept(cx, u) implies cnt(out.push(t), u) + cnt(o, u) == #[trigger] cnt(pre, u) by { assert(cnt(out, u) + cnt(ops, u) == cnt(pre, u)); }
        lemma_drain(cx, toks, i, pre, out.push(t), o);
    }
}
pub proof fn lemma_exec<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires inv(cx, toks, i, st), s_exec(cx, toks, i, st) is Some,
    ensures c02_core(cx, toks, s_exec(cx, toks, i, st).unwrap()),
    decreases toks.len() - i,
{
    if i >= toks.len() {
        assert(toks.take(i) =~= toks);
        if !strict(st.ops) { assert(false); }
        lemma_drain(cx, toks, i, toks, st.out, st.ops);
        let r = s_exec(cx, toks, i, st).unwrap();
        assert(istk(toks, toks.len() as int).unwrap() =~= Seq::<int>::empty());
        assert forall|t: STok<N>| kept(cx, t) implies #[trigger] cnt(r, t) == cnt(toks, t) by { assert(cnt(r, t) + cnt(Seq::<STok<N>>::empty(), t) == cnt(toks, t)); }
    } else {
        lemma_step(cx, toks, i, st);
        lemma_exec(cx, toks, i + 1, s_step(cx, toks, i, st).unwrap());
    }
}
}
/// a group with nothing in it is the argument list of a call
pub open spec fn group_ok<N>(toks: Seq<STok<N>>, j: int) -> bool {
    (toks[j] matches STok::Close(d) && j >= 1 && (toks[j - 1] matches STok::Open(c) && open_for_s(d) == Some(c))) ==> j >= 2 && toks[j - 2] is Fun
}
pub open spec fn groups_ok<N>(toks: Seq<STok<N>>, i: int) -> bool { forall|j: int| i <= j < toks.len() ==> #[trigger] group_ok(toks, j) }
pub proof fn lemma_groups<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>)
    requires 0 <= i <= toks.len(), s_exec(cx, toks, i, st) is Some,
    ensures groups_ok(toks, i),
    decreases toks.len() - i,
{
    if i < toks.len() {
        lemma_groups(cx, toks, i + 1, s_step(cx, toks, i, st).unwrap());
        assert(group_ok(toks, i));
    }
}
/// C02: everything an accepted conversion guarantees about its input and output
pub open spec fn c02_ok<N>(cx: Cx<N>, toks: Seq<STok<N>>, out: Seq<STok<N>>) -> bool { c02_core(cx, toks, out) && groups_ok(toks, 0) }
pub open spec fn c02_core<N>(cx: Cx<N>, toks: Seq<STok<N>>, out: Seq<STok<N>>) -> bool {
    &&& clean(out)
    &&& operands(out) == operands(toks)
    &&& balanced(toks)
    &&& commas_ok(toks, toks.len() as int)
    &&& arg_ok(out)
    &&& forall|t: STok<N>| kept(cx, t) ==> #[trigger] cnt(out, t) == cnt(toks, t)
}
pub proof fn theorem_c02<N>(cx: Cx<N>, toks: Seq<STok<N>>)
    ensures s_run(cx, toks) matches Some(r) ==> c02_ok(cx, toks, r),
{
    if s_run(cx, toks) is Some {
        assert(toks.take(0) =~= seq![]);
        lemma_groups(cx, toks, 0, st0());
        c02::lemma_exec(cx, toks, 0, st0());
    }
}
