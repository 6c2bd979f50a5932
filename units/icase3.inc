// ---------------------------------------------------------------- C06
pub proof fn lemma_flat(a: Seq<char>, b: Seq<char>)
    requires lo(a) == lo(b),
    ensures flat(a) == flat(b),
    decreases a.len(),
{
    assert(lo(a).len() == a.len() && lo(b).len() == b.len());
    if a.len() > 0 {
        assert(lo(a)[0] == lower(a[0])); assert(lo(b)[0] == lower(b[0]));
        assert(lo(a.drop_first()) =~= lo(a).drop_first()); assert(lo(b.drop_first()) =~= lo(b).drop_first());
        lemma_flat(a.drop_first(), b.drop_first());
    }
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_lex_rev(a: Seq<char>, b: Seq<char>) ensures lex(b, a) == rev(lex(a, b)) decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_lex_rev(a.drop_first(), b.drop_first()); } }
pub proof fn lemma_lexs_rev(a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures lexs(b, a) == rev(lexs(a, b)) decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_lex_rev(a[0], b[0]); lemma_lexs_rev(a.drop_first(), b.drop_first()); } }
pub proof fn lemma_lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lex(a, b) == Ordering::Less, lex(b, c) == Ordering::Less,
    ensures lex(a, c) == Ordering::Less,
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
pub proof fn lemma_lexs_trans(a: Seq<Seq<char>>, b: Seq<Seq<char>>, c: Seq<Seq<char>>)
    requires lexs(a, b) == Ordering::Less, lexs(b, c) == Ordering::Less,
    ensures lexs(a, c) == Ordering::Less,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_lex_eq(a[0], b[0]); lemma_lex_eq(b[0], c[0]); lemma_lex_eq(a[0], c[0]);
        if a[0] == b[0] && b[0] == c[0] { lemma_lexs_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
        else if a[0] != b[0] && b[0] != c[0] { lemma_lex_trans(a[0], b[0], c[0]); }
    }
}
/// equality, order and hash agree: a total order whose equality is equality of the lower-cased
/// sequences, and equal names feed the same characters to every hasher
pub proof fn theorem_c06(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        (lo(a) == lo(b)) <==> s_order(a, b) == Ordering::Equal,
        s_order(b, a) == rev(s_order(a, b)),
        s_order(a, b) == Ordering::Less && s_order(b, c) == Ordering::Less ==> s_order(a, c) == Ordering::Less,
        lo(a) == lo(b) ==> flat(a) == flat(b),
{
    lemma_lexs_eq(lo(a), lo(b));
    lemma_lexs_rev(lo(a), lo(b));
    if s_order(a, b) == Ordering::Less && s_order(b, c) == Ordering::Less { lemma_lexs_trans(lo(a), lo(b), lo(c)); }
    if lo(a) == lo(b) { lemma_flat(a, b); }
}
