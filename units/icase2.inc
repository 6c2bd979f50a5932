//@ extract prexel/src/utils/ignore_case_str.rs | struct IgnoreCaseStr
//@ rewrite ( & 'a str ) ==> ( pub & 'a str )
//@ rewrite ( String ) ==> ( pub String )
//@ end
//@ fnset prexel/src/utils/ignore_case_str.rs | impl Eq for IgnoreCaseStr<'a> | 
//@ fnset prexel/src/utils/ignore_case_str.rs | impl Ord for IgnoreCaseStr<'a> | cmp
//@ fnset prexel/src/utils/ignore_case_str.rs | impl PartialEq for IgnoreCaseStr<'a> | eq
//@ fnset prexel/src/utils/ignore_case_str.rs | impl PartialOrd for IgnoreCaseStr<'a> | partial_cmp
//@ fnset prexel/src/utils/ignore_case_str.rs | impl Hash for IgnoreCaseStr<'a> | hash
// the trait methods, verified as inherent methods of the same text
impl<'a> IgnoreCaseStr<'a> {
//@ extract prexel/src/utils/ignore_case_str.rs | impl IgnoreCaseStr<'a> / fn new
//@ ret r
//@ spec
        ensures r.0 == value
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl IgnoreCaseStr<'a> / fn as_str
//@ ret r
//@ spec
        ensures r == self.0
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl IgnoreCaseStr<'a> / fn into_inner
//@ ret r
//@ spec
        ensures r == self.0
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl From<&'a str> for IgnoreCaseStr<'a> / fn from
//@ ret r
//@ rename from_str
//@ spec
        ensures r.0 == value
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl PartialOrd for IgnoreCaseStr<'a> / fn partial_cmp
//@ ret r
//@ spec
        ensures r == Some(s_order(self.0@, other.0@))
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl Ord for IgnoreCaseStr<'a> / fn cmp
//@ ret r
//@ spec
        ensures r == s_order(self.0@, other.0@)
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl PartialEq for IgnoreCaseStr<'a> / fn eq
//@ ret r
//@ spec
        ensures r == (lo(self.0@) == lo(other.0@))
//@ start
        proof { lemma_lexs_eq(lo(self.0@), lo(other.0@)); }
//@ end
//@ extract prexel/src/utils/ignore_case_str.rs | impl Hash for IgnoreCaseStr<'a> / fn hash
//@ spec
        ensures final(state).fed() == old(state).fed() + flat(self.0@)
//@ start
        let ghost h0 = state.fed();
//@ loop 0
        invariant v_i <= v_all@.len(), v_all@ == flat(self.0@), state.fed() == h0 + v_all@.take(v_i as int),
        ensures v_i == v_all@.len(),
        decreases v_all@.len() - v_i
//@ loop 0 before
        proof { assert(h0 + v_all@.take(0) =~= h0); }
//@ loop 0 end
        proof { assert(h0 + v_all@.take(v_i as int) =~= (h0 + v_all@.take(v_i - 1)).push(v_all@[v_i - 1])); }
//@ finish
        proof { assert(v_all@.take(v_all@.len() as int) =~= v_all@); }
//@ end
}
//@ extract prexel/src/utils/ignore_case_string.rs | struct IgnoreCaseString
//@ rewrite ( & 'a str ) ==> ( pub & 'a str )
//@ rewrite ( String ) ==> ( pub String )
//@ end
//@ fnset prexel/src/utils/ignore_case_string.rs | impl Eq for IgnoreCaseString | 
//@ fnset prexel/src/utils/ignore_case_string.rs | impl Ord for IgnoreCaseString | cmp
//@ fnset prexel/src/utils/ignore_case_string.rs | impl PartialEq for IgnoreCaseString | eq
//@ fnset prexel/src/utils/ignore_case_string.rs | impl PartialOrd for IgnoreCaseString | partial_cmp
//@ fnset prexel/src/utils/ignore_case_string.rs | impl Hash for IgnoreCaseString | hash
// the trait methods, verified as inherent methods of the same text
impl IgnoreCaseString {
//@ extract prexel/src/utils/ignore_case_string.rs | impl IgnoreCaseString / fn new
//@ ret r
//@ spec
        ensures r.0 == value
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl IgnoreCaseString / fn as_str
//@ ret r
//@ spec
        ensures r@ == self.0@
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl IgnoreCaseString / fn into_inner
//@ ret r
//@ spec
        ensures r == self.0
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl IgnoreCaseString / fn get_mut
//@ ret r
//@ spec
        ensures *r == old(self).0, final(self).0 == *final(r)
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl From<&str> for IgnoreCaseString / fn from
//@ ret r
//@ spec
        ensures r.0@ == value@
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl PartialOrd for IgnoreCaseString / fn partial_cmp
//@ ret r
//@ spec
        ensures r == Some(s_order(self.0@, other.0@))
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl Ord for IgnoreCaseString / fn cmp
//@ ret r
//@ spec
        ensures r == s_order(self.0@, other.0@)
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl PartialEq for IgnoreCaseString / fn eq
//@ ret r
//@ spec
        ensures r == (lo(self.0@) == lo(other.0@))
//@ start
        proof { lemma_lexs_eq(lo(self.0@), lo(other.0@)); }
//@ end
//@ extract prexel/src/utils/ignore_case_string.rs | impl Hash for IgnoreCaseString / fn hash
//@ spec
        ensures final(state).fed() == old(state).fed() + flat(self.0@)
//@ start
        let ghost h0 = state.fed();
//@ loop 0
        invariant v_i <= v_all@.len(), v_all@ == flat(self.0@), state.fed() == h0 + v_all@.take(v_i as int),
        ensures v_i == v_all@.len(),
        decreases v_all@.len() - v_i
//@ loop 0 before
        proof { assert(h0 + v_all@.take(0) =~= h0); }
//@ loop 0 end
        proof { assert(h0 + v_all@.take(v_i as int) =~= (h0 + v_all@.take(v_i - 1)).push(v_all@[v_i - 1])); }
//@ finish
        proof { assert(v_all@.take(v_all@.len() as int) =~= v_all@); }
//@ end
}
