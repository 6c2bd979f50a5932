// ---------------------------------------------------------------- unchecked forms: the same folds over the type's own operators
pub mod unchecked {
use super::*;
use vstd::std_specs::ops::*;
use std::ops::{Add, Sub, Mul, Div, Rem, Neg};
pub open spec fn total_add<N: Add<N, Output = N>>() -> bool { N::obeys_add_spec() && forall|a: N, b: N| #[trigger] a.add_req(b) }
pub open spec fn total_mul<N: Mul<N, Output = N>>() -> bool { N::obeys_mul_spec() && forall|a: N, b: N| #[trigger] a.mul_req(b) }
pub open spec fn total_div<N: Div<N, Output = N>>() -> bool { N::obeys_div_spec() && forall|a: N, b: N| #[trigger] a.div_req(b) }
pub open spec fn u_add<N: Add<N, Output = N>>() -> spec_fn(N, N) -> Option<N> { |a: N, b: N| Some(a.add_spec(b)) }
pub open spec fn u_mul<N: Mul<N, Output = N>>() -> spec_fn(N, N) -> Option<N> { |a: N, b: N| Some(a.mul_spec(b)) }

//@ repeat STRUCT BOUNDS F TOT | SumFunction Add<N,Output=N>+Clone u_add total_add::<N>() | ProdFunction Mul<N,Output=N>+Clone u_mul total_mul::<N>()
pub struct @STRUCT@;
impl @STRUCT@ {
//@ extract prexel/src/ops/unchecked.rs | impl Function<N> for @STRUCT@ / fn call
//@ rewrite fn call ( ==> pub fn call < N : @BOUNDS@ > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), @TOT@,
        ensures args@.len() == 0 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() > 0 ==> (fold1(args@, @F@::<N>()) matches Some(x) && r == Ok::<N, Error>(x)),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant clone_ok::<N>(), @TOT@, it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k],
                (it.index() == 0) == (result is None),
                it.index() > 0 ==> result == fold1(args@.take(it.index()), @F@::<N>()),
//@ loop 0 start
            proof { lemma_fold_step(args@, it.index(), @F@::<N>()); }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}
//@ endrepeat
pub struct AvgFunction;
impl AvgFunction {
//@ extract prexel/src/ops/unchecked.rs | impl Function<N> for AvgFunction / fn call
//@ rewrite fn call ( ==> pub fn call < N : Add<N, Output = N> + Div<N, Output = N> + FromPrimitive + Clone > (
//@ ret r
//@ spec
        requires clone_ok::<N>(), total_add::<N>(), total_div::<N>(), N::s_from_usize(args@.len() as usize) is Some,
        ensures args@.len() == 0 ==> err_is(r, ErrorKind::InvalidArgumentCount),
            args@.len() > 0 ==> (fold1(args@, u_add::<N>()) matches Some(x)
                && r == Ok::<N, Error>(x.div_spec(N::s_from_usize(args@.len() as usize)->0))),
//@ loops 1
//@ loop 0 iter it
//@ loop 0
            invariant clone_ok::<N>(), total_add::<N>(), it.seq().len() == args@.len(), forall|k: int| 0 <= k < args@.len() ==> *(#[trigger] it.seq()[k]) == args@[k],
                (it.index() == 0) == (sum is None),
                it.index() > 0 ==> sum == fold1(args@.take(it.index()), u_add::<N>()),
//@ loop 0 start
            proof { lemma_fold_step(args@, it.index(), u_add::<N>()); }
//@ loop 0 after
        proof { assert(args@.take(args@.len() as int) =~= args@); }
//@ end
}
}
