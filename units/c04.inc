// ---------------------------------------------------------------- C04
/// the concatenation of the pieces
pub open spec fn cat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { seq![] } else { p[0] + cat(p.drop_first()) } }
/// `s` with every whitespace character removed, and nothing else removed
pub open spec fn nows(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { (if s_ws(s[0]) { seq![] } else { seq![s[0]] }) + nows(s.drop_first()) }
}
/// length of the first piece of `s` (`bin`: with binary literals): the longest the character class allows
pub open spec fn take_len(bin: bool, s: Seq<char>) -> nat {
    let (c, rest) = (s[0], s.drop_first());
    if bin && s_bin(c, rest) { 1 + run(p_digit(), rest) }
    else if s_digit(c) { 1 + num_run(rest, false) }
    else if s_alpha(c) { 1 + run(p_ident(), rest) }
    else if s_opch(c) { 1 + run(p_op(), rest) }
    else { 1 }
}
/// the reference: whitespace is dropped, everything else is cut into maximal runs
pub open spec fn dsplit(bin: bool, s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if s_ws(s[0]) { dsplit(bin, s.drop_first()) }
    else if take_len(bin, s) > s.len() { seq![] }
    else { seq![s.take(take_len(bin, s) as int)] + dsplit(bin, s.skip(take_len(bin, s) as int)) }
}
pub proof fn lemma_take_len(bin: bool, s: Seq<char>)
    requires s.len() > 0, !s_ws(s[0])
    ensures 1 <= take_len(bin, s) <= s.len(), forall|k: int| 0 <= k < take_len(bin, s) ==> !s_ws(#[trigger] s[k])
{
    let rest = s.drop_first();
    lemma_run(p_digit(), rest); lemma_run(p_ident(), rest); lemma_run(p_op(), rest); lemma_num_run(rest, false);
    assert forall|k: int| 0 <= k < take_len(bin, s) implies !s_ws(#[trigger] s[k]) by { if k > 0 { assert(s[k] == rest[k - 1]); } }
}
pub proof fn lemma_nows_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> !s_ws(#[trigger] s[k])
    ensures nows(s) == s.take(n) + nows(s.skip(n))
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); assert(s.take(0) + nows(s) =~= nows(s)); }
    else {
        let t = s.drop_first();
        assert forall|k: int| 0 <= k < n - 1 implies !s_ws(#[trigger] t[k]) by { assert(t[k] == s[k + 1]); }
        lemma_nows_prefix(t, n - 1);
        assert(!s_ws(s[0]));
        assert(t.skip(n - 1) =~= s.skip(n));
        assert(seq![s[0]] + t.take(n - 1) =~= s.take(n));
        assert(nows(s) =~= s.take(n) + nows(s.skip(n)));
    }
}
/// the splitter of either set of rules computes the reference
pub proof fn lemma_is_dsplit<'a>(bin: bool, r: Seq<Box<dyn SplitRule + 'a>>, s: Seq<char>)
    requires bin ==> binary_rules(r), !bin ==> default_rules(r)
    ensures cont_ok(r), pieces(r, s) == dsplit(bin, s)
    decreases s.len()
{
    assert(cont_ok(r)) by {
        assert forall|k: int, c: char, rest: Seq<char>| 0 <= k < r.len() && #[trigger] r[k].s_out(c, rest) is Cont implies r[k].s_len(c, rest) == 0 by { }
    }
    if s.len() > 0 {
        let c = s[0]; let rest = s.drop_first();
        reveal_with_fuel(first_rule, 6);
        assert(seq![c] + rest =~= s);
        if s_ws(c) {
            assert(rest.skip(0) =~= rest);
            lemma_is_dsplit(bin, r, rest);
            assert(first_rule(r, c, rest, 0) == r.len() - 1);
            assert(step_out(r, s) =~= seq![]);
            assert(pieces(r, s) =~= dsplit(bin, s));
        } else {
            lemma_take_len(bin, s);
            let n = take_len(bin, s) as int;
            assert(rest.skip(n - 1) =~= s.skip(n));
            assert(seq![c] + rest.take(n - 1) =~= s.take(n));
            lemma_is_dsplit(bin, r, s.skip(n));
            assert(seq![c] =~= s.take(1));
            assert(step_len(r, s) == n - 1);
            assert(step_out(r, s) =~= seq![s.take(n)]);
            assert(pieces(r, s) =~= dsplit(bin, s));
        }
    }
}
/// C04: nothing is lost, no piece is empty, and each piece is a maximal run of its class
pub proof fn theorem_c04<'a>(bin: bool, r: Seq<Box<dyn SplitRule + 'a>>, s: Seq<char>)
    requires bin ==> binary_rules(r), !bin ==> default_rules(r)
    ensures
        cont_ok(r),
        pieces(r, s) == dsplit(bin, s),
        cat(dsplit(bin, s)) == nows(s),
        forall|k: int| 0 <= k < dsplit(bin, s).len() ==> (#[trigger] dsplit(bin, s)[k]).len() > 0,
    decreases s.len()
{
    lemma_is_dsplit(bin, r, s);
    let d = dsplit(bin, s);
    if s.len() > 0 {
        if s_ws(s[0]) { theorem_c04(bin, r, s.drop_first()); assert(nows(s) =~= nows(s.drop_first())); }
        else {
            lemma_take_len(bin, s);
            let n = take_len(bin, s) as int;
            theorem_c04(bin, r, s.skip(n));
            lemma_nows_prefix(s, n);
            let e = dsplit(bin, s.skip(n));
            assert(d == seq![s.take(n)] + e);
            assert(d.drop_first() =~= e); assert(d[0] == s.take(n));
            assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).len() > 0 by { if k > 0 { assert(d[k] == e[k - 1]); } }
        }
    }
}
/// what "as long as possible" means for the runs used by `take_len`
pub proof fn theorem_c04_maximal(p: spec_fn(char) -> bool, s: Seq<char>)
    ensures
        forall|k: int| 0 <= k < run(p, s) ==> p(#[trigger] s[k]), run(p, s) < s.len() ==> !p(s[run(p, s) as int]),
        forall|j: int, k: int| 0 <= j < k < num_run(s, false) ==> !(#[trigger] s[j] == '.' && #[trigger] s[k] == '.'),
        forall|k: int| 0 <= k < num_run(s, false) ==> s_digit(#[trigger] s[k]) || s[k] == '.',
        num_run(s, false) < s.len() ==> !s_digit(s[num_run(s, false) as int]) && (s[num_run(s, false) as int] == '.' ==> exists|k: int| 0 <= k < num_run(s, false) && #[trigger] s[k] == '.'),
{ lemma_run(p, s); lemma_num_run(s, false); }
