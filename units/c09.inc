// ---------------------------------------------------------------- variadic functions
/// left fold of the arguments with `f`; None as soon as a step is None
pub open spec fn fold1<N>(s: Seq<N>, f: spec_fn(N, N) -> Option<N>) -> Option<N>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if s.len() == 1 { Some(s[0]) }
    else { match fold1(s.drop_last(), f) { Some(x) => f(x, s.last()), None => None } }
}
proof fn lemma_fold_step<N>(s: Seq<N>, i: int, f: spec_fn(N, N) -> Option<N>)
    requires 0 <= i < s.len(),
    ensures i == 0 ==> fold1(s.take(i + 1), f) == Some(s[0]),
        i > 0 ==> fold1(s.take(i + 1), f) == (match fold1(s.take(i), f) { Some(x) => f(x, s[i]), None => None }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn lemma_fold_none<N>(s: Seq<N>, i: int, f: spec_fn(N, N) -> Option<N>)
    requires 0 < i <= s.len(), fold1(s.take(i), f) is None,
    ensures fold1(s, f) is None,
    decreases s.len() - i,
{
    if i < s.len() { lemma_fold_step(s, i, f); lemma_fold_none(s, i + 1, f); }
    else { assert(s.take(i) =~= s); }
}
pub open spec fn f_add<N: CheckedAdd>() -> spec_fn(N, N) -> Option<N> { |a: N, b: N| a.s_add(b) }
pub open spec fn f_mul<N: CheckedMul>() -> spec_fn(N, N) -> Option<N> { |a: N, b: N| a.s_mul(b) }

/// the integers' sum and product, every argument once
pub open spec fn sum_v<N: VNum>(s: Seq<N>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_v(s.drop_last()) + s.last().v() } }
pub open spec fn prod_v<N: VNum>(s: Seq<N>) -> int decreases s.len() { if s.len() == 0 { 1 } else { prod_v(s.drop_last()) * s.last().v() } }

/// for the checked integers: the exact sum, or some partial sum is out of range
pub proof fn theorem_c09_sum<N: CheckedAdd>(s: Seq<N>)
    requires N::is_int(), s.len() > 0,
    ensures match fold1(s, f_add::<N>()) { Some(x) => x.v() == sum_v(s), None => exists|k: int| 0 < k <= s.len() && !N::rep(#[trigger] sum_v(s.take(k))) }
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); reveal_with_fuel(sum_v, 2); }
    else {
        let p = s.drop_last();
        theorem_c09_sum(p);
        match fold1(p, f_add::<N>()) {
            Some(x) => { x.law_add(s.last()); if fold1(s, f_add::<N>()) is None { assert(s.take(s.len() as int) =~= s); assert(!N::rep(sum_v(s.take(s.len() as int)))); } }
            None => { let k = choose|k: int| 0 < k <= p.len() && !N::rep(#[trigger] sum_v(p.take(k))); assert(p.take(k) =~= s.take(k)); assert(!N::rep(sum_v(s.take(k)))); }
        }
    }
}
pub proof fn theorem_c09_prod<N: CheckedMul>(s: Seq<N>)
    requires N::is_int(), s.len() > 0,
    ensures match fold1(s, f_mul::<N>()) { Some(x) => x.v() == prod_v(s), None => exists|k: int| 0 < k <= s.len() && !N::rep(#[trigger] prod_v(s.take(k))) }
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); reveal_with_fuel(prod_v, 2); assert(1 * s[0].v() == s[0].v()); }
    else {
        let p = s.drop_last();
        theorem_c09_prod(p);
        match fold1(p, f_mul::<N>()) {
            Some(x) => { x.law_mul(s.last()); if fold1(s, f_mul::<N>()) is None { assert(s.take(s.len() as int) =~= s); assert(!N::rep(prod_v(s.take(s.len() as int)))); } }
            None => { let k = choose|k: int| 0 < k <= p.len() && !N::rep(#[trigger] prod_v(p.take(k))); assert(p.take(k) =~= s.take(k)); assert(!N::rep(prod_v(s.take(k)))); }
        }
    }
}
/// average of the checked integers: the exact sum over the exact count, truncated; or an overflow
pub proof fn theorem_c09_avg<N: CheckedAdd + CheckedDiv + FromPrimitive>(s: Seq<N>, n: usize)
    requires N::is_int(), s.len() == n, n > 0,
    ensures match avg_spec(s, n) {
            Some(x) => x.v() == tdiv(sum_v(s), n as int),
            None => !N::rep(n as int) || exists|k: int| 0 < k <= s.len() && !N::rep(#[trigger] sum_v(s.take(k))) }
{
    theorem_c09_sum(s);
    N::law_from_usize(n);
    match fold1(s, f_add::<N>()) {
        Some(x) => match N::s_from_usize(n) {
            Some(d) => { x.law_div(d); lemma_trunc(x.v(), d.v()); lemma_tdiv_between::<N>(x, d); }
            None => {}
        }
        None => {}
    }
}
/// a quotient by a positive number is never out of range
proof fn lemma_tdiv_between<N: VNum>(x: N, d: N)
    requires N::is_int(), d.v() > 0,
    ensures N::rep(tdiv(x.v(), d.v())),
{
    lemma_trunc(x.v(), d.v());
    x.v_rep(); N::v_zero();
    let a = iabs(x.v());
    lemma_tdiv_pos(a, d.v());
    if x.v() >= 0 { N::v_interval(0, tdiv(x.v(), d.v()), x.v()); } else { N::v_interval(x.v(), tdiv(x.v(), d.v()), 0); }
}
pub open spec fn avg_spec<N: CheckedAdd + CheckedDiv + FromPrimitive>(s: Seq<N>, n: usize) -> Option<N> {
    match fold1(s, f_add::<N>()) {
        Some(x) => match N::s_from_usize(n) { Some(d) => x.s_div(d), None => None },
        None => None,
    }
}


//@ repeat STRUCT VAR BOUNDS F | SumFunction result CheckedAdd+Clone f_add | ProdFunction result CheckedMul+Clone f_mul
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/checked.rs | impl Function<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> fn call < N : @BOUNDS@ > (
//@ ret r
//@ spec
        requires clone_ok::<N>(),
        ensures args@.len() == 0 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() > 0 ==> ok_or(r, fold1(args@, @F@::<N>()), ErrorKind::Overflow),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant clone_ok::<N>(), it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k],
                (it.index() == 0) == (@VAR@ is None),
                it.index() > 0 ==> @VAR@ == fold1(args@.take(it.index()), @F@::<N>()),
//@ loop 0 start
            proof {
                let i = it.index();
                lemma_fold_step(args@, i, @F@::<N>());
                if fold1(args@.take(i + 1), @F@::<N>()) is None { lemma_fold_none(args@, i + 1, @F@::<N>()); }
            }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}
//@ endrepeat
pub struct AvgFunction;
impl AvgFunction {
//@ extract prexel/src/ops/checked.rs | impl Function<N> for AvgFunction / fn call
//@ rewrite fn call ( ==> fn call < N : CheckedAdd + CheckedDiv + FromPrimitive + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(),
        ensures args@.len() == 0 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() > 0 ==> ok_or(r, avg_spec(args@, args@.len() as usize), ErrorKind::Overflow),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant clone_ok::<N>(), it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k],
                (it.index() == 0) == (sum is None),
                it.index() > 0 ==> sum == fold1(args@.take(it.index()), f_add::<N>()),
//@ loop 0 start
            proof {
                let i = it.index();
                lemma_fold_step(args@, i, f_add::<N>());
                if fold1(args@.take(i + 1), f_add::<N>()) is None { lemma_fold_none(args@, i + 1, f_add::<N>()); }
            }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}

// ---------------------------------------------------------------- max, min
/// `a > b` / `a < b` as the type's own comparison answers
pub open spec fn s_gt<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) }
pub open spec fn s_lt<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
pub open spec fn s_eqv<N: PartialOrd>(a: N, b: N) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }
/// what std requires of every PartialOrd, and that what is equal compares alike
pub open spec fn trans<N: PartialOrd>() -> bool {
    &&& (forall|a: N| !#[trigger] s_gt(a, a)) && (forall|a: N| !#[trigger] s_lt(a, a))
    &&& forall|a: N, b: N, c: N| #[trigger] s_gt(a, b) && #[trigger] s_gt(b, c) ==> s_gt(a, c)
    &&& forall|a: N, b: N, c: N| #[trigger] s_lt(a, b) && #[trigger] s_lt(b, c) ==> s_lt(a, c)
    &&& forall|a: N, b: N, c: N| #[trigger] s_gt(a, b) && #[trigger] s_eqv(b, c) ==> s_gt(a, c)
    &&& forall|a: N, b: N, c: N| #[trigger] s_lt(a, b) && #[trigger] s_eqv(b, c) ==> s_lt(a, c)
}
//@ repeat STRUCT VAR REL | MaxFunction max s_gt | MinFunction min s_lt
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/mod.rs | mod math_ops / impl Function<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> fn call < N : PartialOrd + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), N::obeys_partial_cmp_spec(), trans::<N>(),
        ensures args@.len() < 2 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() >= 2 ==> (r matches Ok(m) && (exists|k: int| 0 <= k < args@.len() && args@[k] == m)
                && forall|k: int| 0 <= k < args@.len() ==> !@REL@(#[trigger] args@[k], m)),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant clone_ok::<N>(), N::obeys_partial_cmp_spec(), trans::<N>(), it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k],
                (it.index() == 0) == (@VAR@ is None),
                @VAR@ matches Some(m) ==> (exists|k: int| 0 <= k < it.index() && args@[k] == m)
                    && forall|k: int| 0 <= k < it.index() ==> !@REL@(#[trigger] args@[k], m),
//@ loop 0 start
            proof { assert(!@REL@(args@[it.index()], args@[it.index()])); }
            let ghost g_m = @VAR@;
//@ loop 0 end
            proof {
                if @VAR@ != g_m && g_m is Some { assert(@REL@(@VAR@->0, g_m->0) || s_eqv(@VAR@->0, g_m->0)); assert(@VAR@->0 == args@[it.index()]); }
            }
//@ end
}
//@ endrepeat
