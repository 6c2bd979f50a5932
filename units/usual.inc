// ---------------------------------------------------------------- C23: the usual order of operations
/// `mod`, in any case
pub open spec fn is_mod(o: Seq<char>) -> bool { o.len() == 3 && (o[0] == 'm' || o[0] == 'M') && (o[1] == 'o' || o[1] == 'O') && (o[2] == 'd' || o[2] == 'D') }
/// 1: sums, 2: products, 3: powers, 0: not an arithmetic operator
pub open spec fn rank(o: Seq<char>) -> int {
    if o == seq!['+'] || o == seq!['-'] { 1 } else if o == seq!['*'] || o == seq!['/'] || is_mod(o) { 2 } else if o == seq!['^'] { 3 } else { 0 }
}
pub open spec fn is_sign(u: Seq<char>) -> bool { u == seq!['+'] || u == seq!['-'] }
/// the operators of a context rank as in arithmetic: powers over products over sums; powers group from the right, the others from the left; signs are prefix, `!` (if any) is postfix
pub open spec fn usual<N>(cx: Cx<N>) -> bool {
    &&& forall|o: Seq<char>| rank(o) > 0 ==> #[trigger] (cx.bin)(o) is Some
    &&& forall|o: Seq<char>| rank(o) > 0 ==> (#[trigger] (cx.bin)(o)).unwrap().left == (rank(o) < 3)
    &&& forall|o: Seq<char>, p: Seq<char>| rank(o) > 0 && rank(p) > 0 ==> ((#[trigger] (cx.bin)(o)).unwrap().prec < (#[trigger] (cx.bin)(p)).unwrap().prec <==> rank(o) < rank(p))
    &&& forall|u: Seq<char>| is_sign(u) ==> (#[trigger] (cx.un)(u)) is Some && (cx.un)(u).unwrap().prefix
    &&& (cx.un)(seq!['!']) is Some ==> !(cx.un)(seq!['!']).unwrap().prefix
}
