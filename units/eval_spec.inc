// ---------------------------------------------------------------- abstract conversion machine
#[verifier::reject_recursive_types(N)]
pub struct St<N> { pub out: Seq<STok<N>>, pub ops: Seq<STok<N>>, pub argc: Seq<nat>, pub grp: Seq<nat> }

pub open spec fn un_of<N>(cx: Cx<N>, t: STok<N>) -> Option<SUn<N>> { match t { STok::Un(u) => (cx.un)(u), _ => None } }
pub open spec fn s_number<N>(cx: Cx<N>, out: Seq<STok<N>>, ops: Seq<STok<N>>, t: STok<N>) -> (Seq<STok<N>>, Seq<STok<N>>) {
    if ops.len() > 0 && un_of(cx, ops.last()) is Some { (out.push(t).push(ops.last()), ops.drop_last()) } else { (out.push(t), ops) }
}
/// does binary operator `b` first apply the pending `top`?
pub open spec fn pops<N>(cx: Cx<N>, top: STok<N>, b: SBin<N>) -> bool {
    match top {
        STok::Fun(_) | STok::Un(_) => true,
        STok::Bin(o) => match (cx.bin)(o) { Some(tb) => tb.prec > b.prec || (tb.prec == b.prec && tb.left), None => false },
        _ => false,
    }
}
pub open spec fn s_pop_bin<N>(cx: Cx<N>, out: Seq<STok<N>>, ops: Seq<STok<N>>, b: SBin<N>) -> (Seq<STok<N>>, Seq<STok<N>>)
    decreases ops.len()
{
    if ops.len() > 0 && pops(cx, ops.last(), b) { s_pop_bin(cx, out.push(ops.last()), ops.drop_last(), b) } else { (out, ops) }
}
pub open spec fn s_pop_open<N>(out: Seq<STok<N>>, ops: Seq<STok<N>>) -> (Seq<STok<N>>, Seq<STok<N>>)
    decreases ops.len()
{
    if ops.len() > 0 && !(ops.last() is Open) { s_pop_open(out.push(ops.last()), ops.drop_last()) } else { (out, ops) }
}
pub open spec fn s_binary<N>(cx: Cx<N>, out: Seq<STok<N>>, ops: Seq<STok<N>>, name: Seq<char>) -> Option<(Seq<STok<N>>, Seq<STok<N>>)> {
    match (cx.bin)(name) {
        None => None,
        Some(b) => { let p = s_pop_bin(cx, out, ops, b); Some((p.0, p.1.push(STok::Bin(name)))) }
    }
}
pub open spec fn s_unary<N>(cx: Cx<N>, out: Seq<STok<N>>, ops: Seq<STok<N>>, name: Seq<char>) -> Option<(Seq<STok<N>>, Seq<STok<N>>)> {
    match (cx.un)(name) {
        None => None,
        Some(u) => if u.prefix { Some((out, ops.push(STok::Un(name)))) }
            else if out.len() > 0 { Some((out.push(STok::Un(name)), ops)) } else { None },
    }
}
pub open spec fn s_close<N>(out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>, d: char, is_empty: bool)
    -> Option<(Seq<STok<N>>, Seq<STok<N>>, Seq<nat>)>
{
    let p = s_pop_open(out, ops);
    if p.1.len() == 0 { None } else {
        let p2 = p.1.drop_last();
        match p.1.last() {
            STok::Open(c) => if close_of(c) == Some(d) {
                if argc.len() > 0 && p2.len() > 0 && p2.last() is Fun {
                    let count = if is_empty { 0nat } else { argc.last() + 1 };
                    Some((p.0.push(STok::Arg(count)).push(p2.last()), p2.drop_last(), argc.drop_last()))
                } else { Some((p.0, p2, argc)) }
            } else { None },
            _ => None,
        }
    }
}
pub open spec fn s_comma<N>(out: Seq<STok<N>>, ops: Seq<STok<N>>, argc: Seq<nat>) -> Option<(Seq<STok<N>>, Seq<STok<N>>, Seq<nat>)> {
    let p = s_pop_open(out, ops);
    if argc.len() == 0 || p.1.len() == 0 { None } else { Some((p.0, p.1, argc.update(argc.len() - 1, argc.last() + 1))) }
}
pub open spec fn s_comma_ok<N>(toks: Seq<STok<N>>, grp: Seq<nat>, i: int) -> bool {
    &&& i > 0
    &&& !(toks[i - 1] is Open)
    &&& !(toks[i - 1] is Comma)
    &&& !(i + 1 < toks.len() && toks[i + 1] is Close)
    &&& (grp.len() > 0 ==> 0 <= grp.last() - 1 < toks.len() && toks[grp.last() - 1] is Fun)
}
/// the conversion is given `toks[i]` when the call's arguments must start at `toks[i+1]`
pub open spec fn s_fun_ok<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int) -> bool {
    &&& i + 1 < toks.len()
    &&& if cx.custom { toks[i + 1] is Open } else { toks[i + 1] == STok::<N>::Open('(') || toks[i + 1] == STok::<N>::Close('(') }
}
pub open spec fn s_empty_bad<N>(toks: Seq<STok<N>>, i: int, d: char) -> bool {
    i > 0 && (toks[i - 1] matches STok::Open(s) && open_for_s(d) == Some(s)) && !(i > 1 && toks[i - 2] is Fun)
}
pub open spec fn s_consume<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>) -> Option<St<N>> {
    let t = toks[i];
    match t {
        STok::Num(_) | STok::Var(_) | STok::Con(_) => { let p = s_number(cx, st.out, st.ops, t); Some(St { out: p.0, ops: p.1, ..st }) }
        STok::Bin(name) => match s_binary(cx, st.out, st.ops, name) { Some(p) => Some(St { out: p.0, ops: p.1, ..st }), None => None },
        STok::Un(name) => match s_unary(cx, st.out, st.ops, name) { Some(p) => Some(St { out: p.0, ops: p.1, ..st }), None => None },
        STok::Fun(name) => if s_fun_ok(cx, toks, i) { Some(St { ops: st.ops.push(t), argc: st.argc.push(0), ..st }) } else { None },
        STok::Open(_) => Some(St { ops: st.ops.push(t), grp: if st.argc.len() > 0 { st.grp.push(i as nat) } else { st.grp }, ..st }),
        STok::Close(d) => match s_close(st.out, st.ops, st.argc, d, i > 0 && toks[i - 1] is Open) {
            None => None,
            Some(p) => if s_empty_bad(toks, i, d) { None } else {
                Some(St { out: p.0, ops: p.1, argc: p.2, grp: if p.2.len() > 0 && st.grp.len() > 0 { st.grp.drop_last() } else { st.grp } })
            }
        },
        STok::Comma => if !s_comma_ok(toks, st.grp, i) { None } else {
            match s_comma(st.out, st.ops, st.argc) { Some(p) => Some(St { out: p.0, ops: p.1, argc: p.2, ..st }), None => None }
        },
        _ => None,
    }
}
pub open spec fn star<N>() -> STok<N> { STok::Bin(seq!['*']) }
/// does juxtaposing `t` with `next` mean multiplication?
pub open spec fn juxt<N>(cx: Cx<N>, t: STok<N>, next: STok<N>) -> bool {
    cx.imul && (if t is Num { next is Fun || next is Con || next is Var || next is Open }
        else if t is Close { next is Num || next is Var || next is Con || next is Fun || next is Open } else { false })
}
pub open spec fn trig<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int) -> bool { i + 1 < toks.len() && juxt(cx, toks[i], toks[i + 1]) }
pub open spec fn s_step<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>) -> Option<St<N>> {
    match s_consume(cx, toks, i, st) {
        None => None,
        Some(s2) => if trig(cx, toks, i) { Some(St { ops: s2.ops.push(star()), ..s2 }) } else { Some(s2) },
    }
}
pub open spec fn s_drain<N>(out: Seq<STok<N>>, ops: Seq<STok<N>>) -> Option<Seq<STok<N>>>
    decreases ops.len()
{
    if ops.len() == 0 { Some(out) } else if ops.last() is Open || ops.last() is Close { None } else { s_drain(out.push(ops.last()), ops.drop_last()) }
}
pub open spec fn s_exec<N>(cx: Cx<N>, toks: Seq<STok<N>>, i: int, st: St<N>) -> Option<Seq<STok<N>>>
    decreases toks.len() - i
{
    if i < 0 || i >= toks.len() { s_drain(st.out, st.ops) } else {
        match s_step(cx, toks, i, st) { None => None, Some(s2) => s_exec(cx, toks, i + 1, s2) }
    }
}
pub open spec fn st0<N>() -> St<N> { St { out: seq![], ops: seq![], argc: seq![], grp: seq![] } }
pub open spec fn s_run<N>(cx: Cx<N>, toks: Seq<STok<N>>) -> Option<Seq<STok<N>>> { s_exec(cx, toks, 0, st0()) }

/// exec-side machine-integer bounds: counters never exceed the number of tokens read
pub open spec fn bounds<N>(st: St<N>, i: int) -> bool {
    &&& forall|k: int| 0 <= k < st.argc.len() ==> #[trigger] st.argc[k] <= i
    &&& forall|k: int| 0 <= k < st.grp.len() ==> 1 <= #[trigger] st.grp[k] <= i
    &&& st.argc.len() > 0 ==> i > 0
}
pub open spec fn nats(s: Seq<usize>) -> Seq<nat> { s.map_values(|x: usize| x as nat) }
pub mod views { use super::*;
pub broadcast proof fn tvs_push<N>(s: Seq<Token<N>>, t: Token<N>)
    ensures #[trigger] tvs(s.push(t)) == tvs(s).push(tv(t)),
{ assert(tvs(s.push(t)) =~= tvs(s).push(tv(t))); }
pub broadcast proof fn tvs_drop<N>(s: Seq<Token<N>>)
    requires s.len() > 0,
    ensures #[trigger] tvs(s).drop_last() == tvs(s.drop_last()), s.drop_last() == s.subrange(0, s.len() - 1),
{ assert(tvs(s.drop_last()) =~= tvs(s).drop_last()); }
pub broadcast proof fn tvs_last<N>(s: Seq<Token<N>>)
    requires s.len() > 0,
    ensures #[trigger] tvs(s).last() == tv(s.last()),
{ }
pub broadcast proof fn tvs_len<N>(s: Seq<Token<N>>)
    ensures #[trigger] tvs(s).len() == s.len(),
{ }
pub broadcast proof fn nats_push(s: Seq<usize>, t: usize)
    ensures #[trigger] nats(s.push(t)) == nats(s).push(t as nat),
{ assert(nats(s.push(t)) =~= nats(s).push(t as nat)); }
pub broadcast proof fn nats_drop(s: Seq<usize>)
    requires s.len() > 0,
    ensures #[trigger] nats(s).drop_last() == nats(s.drop_last()), s.drop_last() == s.subrange(0, s.len() - 1),
{ assert(nats(s.drop_last()) =~= nats(s).drop_last()); }
pub broadcast proof fn nats_upd(s: Seq<usize>, i: int, t: usize)
    requires 0 <= i < s.len(),
    ensures #[trigger] nats(s.update(i, t)) == nats(s).update(i, t as nat),
{ assert(nats(s.update(i, t)) =~= nats(s).update(i, t as nat)); }
pub broadcast group g_views { tvs_push, tvs_drop, tvs_last, tvs_len, nats_push, nats_drop, nats_upd }
}
