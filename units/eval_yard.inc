// ---------------------------------------------------------------- shunting yard: code against the machine
pub mod yard { use super::*; broadcast use super::views::g_views;
//@ fnset prexel/src/evaluator.rs | mod shunting_yard | infix_to_rpn check_comma_position push_number push_unary_function push_binary_function push_grouping_close push_comma

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn check_comma_position
//@ ret r
//@ spec
    requires pos < tokens@.len(), forall|k: int| 0 <= k < grouping_count@.len() ==> 1 <= #[trigger] grouping_count@[k] <= tokens@.len(),
    ensures r is Ok <==> s_comma_ok(tvs(tokens@), nats(grouping_count@), pos as int),
//@ start
    assert(tokens.len() <= usize::MAX);
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn push_number
//@ spec
    requires clone_ok::<N>(),
    ensures (tvs(final(output)@), tvs(final(operators)@)) == s_number(context.cx(), tvs(old(output)@), tvs(old(operators)@), tv(*token)),
//@ start
    let ghost o0 = tvs(output@); let ghost p0 = tvs(operators@);
//@ finish
    proof {
        let m = s_number(context.cx(), o0, p0, tv(*token));
        assert(tvs(output@) =~= m.0);
        assert(tvs(operators@) =~= m.1);
    }
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn push_unary_function
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures
        r is Err <==> s_unary(context.cx(), tvs(old(output)@), tvs(old(operators)@), name@) is None,
        r is Ok ==> tv(*token) == STok::<N>::Un(name@) ==>
            s_unary(context.cx(), tvs(old(output)@), tvs(old(operators)@), name@) == Some((tvs(final(output)@), tvs(final(operators)@))),
//@ start
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn push_binary_function
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures
        r is Err <==> s_binary(context.cx(), tvs(old(output)@), tvs(old(operators)@), name@) is None,
        r is Ok ==> tv(*token) == STok::<N>::Bin(name@) ==>
            s_binary(context.cx(), tvs(old(output)@), tvs(old(operators)@), name@) == Some((tvs(final(output)@), tvs(final(operators)@))),
//@ start
    let ghost cx = context.cx();
    let ghost target = s_binary(cx, tvs(output@), tvs(operators@), name@);
//@ loop 0
        invariant_except_break
            s_pop_bin(cx, tvs(output@), tvs(operators@), (cx.bin)(name@).unwrap()) == s_pop_bin(cx, tvs(old(output)@), tvs(old(operators)@), (cx.bin)(name@).unwrap()),
        invariant
            clone_ok::<N>(), cx == context.cx(), (cx.bin)(name@) is Some,
            (cx.bin)(name@).unwrap().prec == operator.s_prec().0,
            target == s_binary(cx, tvs(old(output)@), tvs(old(operators)@), name@),
        ensures
            target == Some((tvs(output@), tvs(operators@).push(STok::Bin(name@)))),
        decreases operators@.len(),
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn push_grouping_close
//@ ret r
//@ spec
    requires clone_ok::<N>(), forall|k: int| 0 <= k < old(arg_count)@.len() ==> #[trigger] old(arg_count)@[k] < usize::MAX,
    ensures
        r is Err <==> s_close(tvs(old(output)@), tvs(old(operators)@), nats(old(arg_count)@), group_close, is_empty) is None,
        r is Ok ==> s_close(tvs(old(output)@), tvs(old(operators)@), nats(old(arg_count)@), group_close, is_empty)
            == Some((tvs(final(output)@), tvs(final(operators)@), nats(final(arg_count)@))),
//@ start
    let ghost target = s_close(tvs(output@), tvs(operators@), nats(arg_count@), group_close, is_empty);
    let ghost ac0 = arg_count@;
//@ loop 0
        invariant_except_break
            !is_group_open, arg_count@ == ac0,
            s_pop_open(tvs(output@), tvs(operators@)) == s_pop_open(tvs(old(output)@), tvs(old(operators)@)),
        invariant
            clone_ok::<N>(),
            ac0 == old(arg_count)@,
            forall|k: int| 0 <= k < ac0.len() ==> #[trigger] ac0[k] < usize::MAX,
            target == s_close(tvs(old(output)@), tvs(old(operators)@), nats(ac0), group_close, is_empty),
        ensures
            !is_group_open ==> target is None,
            is_group_open ==> target == Some((tvs(output@), tvs(operators@), nats(arg_count@))),
        decreases operators@.len(),
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn push_comma
//@ ret r
//@ spec
    requires forall|k: int| 0 <= k < old(arg_count)@.len() ==> #[trigger] old(arg_count)@[k] < usize::MAX,
    ensures
        r is Err <==> s_comma(tvs(old(output)@), tvs(old(operators)@), nats(old(arg_count)@)) is None,
        r is Ok ==> s_comma(tvs(old(output)@), tvs(old(operators)@), nats(old(arg_count)@))
            == Some((tvs(final(output)@), tvs(final(operators)@), nats(final(arg_count)@))),
//@ start
    let ghost target = s_comma(tvs(output@), tvs(operators@), nats(arg_count@));
    let ghost ac0 = arg_count@;
//@ loop 0
        invariant_except_break
            !is_group_open,
            s_pop_open(tvs(output@), tvs(operators@)) == s_pop_open(tvs(old(output)@), tvs(old(operators)@)),
        invariant
            ac0 == old(arg_count)@,
            ac0.len() > 0,
            nats(arg_count@) == nats(ac0).update(ac0.len() - 1, nats(ac0).last() + 1),
            target == s_comma(tvs(old(output)@), tvs(old(operators)@), nats(ac0)),
        ensures
            !is_group_open ==> target is None,
            is_group_open ==> target == Some((tvs(output@), tvs(operators@), nats(arg_count@))),
        decreases operators@.len(),
//@ end

//@ extract prexel/src/evaluator.rs | mod shunting_yard / fn infix_to_rpn
//@ ret r
//@ spec
    requires clone_ok::<N>(),
    ensures
        r is Err <==> s_run(context.cx(), tvs(tokens@)) is None,
        r matches Ok(v) ==> s_run(context.cx(), tvs(tokens@)) == Some(tvs(v@)),
//@ start
    let ghost cx = context.cx();
    let ghost toks = tvs(tokens@);
    let ghost mut n: int = 0;
    assert(tokens.len() <= usize::MAX);
//@ loop 0 before
    proof {
        assert(tvs(output@) =~= seq![]); assert(tvs(operators@) =~= seq![]);
        assert(nats(arg_count@) =~= seq![]); assert(nats(grouping_count@) =~= seq![]);
    }
//@ loop 0
        invariant
            clone_ok::<N>(), cx == context.cx(), toks == tvs(tokens@), tokens@.len() <= usize::MAX,
            token_iterator.wf(), token_iterator.s == tokens,
            s_exec(cx, toks, token_iterator.pos as int, St { out: tvs(output@), ops: tvs(operators@), argc: nats(arg_count@), grp: nats(grouping_count@) })
                == s_run(cx, toks),
            bounds(St { out: tvs(output@), ops: tvs(operators@), argc: nats(arg_count@), grp: nats(grouping_count@) }, token_iterator.pos as int),
        ensures token_iterator.pos == tokens@.len(),
        decreases tokens@.len() - token_iterator.pos,
//@ loop 0 start
        proof {
            let st = St { out: tvs(output@), ops: tvs(operators@), argc: nats(arg_count@), grp: nats(grouping_count@) };
            assert(forall|k: int| 0 <= k < arg_count@.len() ==> nats(arg_count@)[k] == #[trigger] arg_count@[k]);
            assert(forall|k: int| 0 <= k < grouping_count@.len() ==> nats(grouping_count@)[k] == #[trigger] grouping_count@[k]);
            assert(toks[pos as int] == tv(*token));
        }
//@ loop 1
        invariant
            s_drain(tvs(output@), tvs(operators@)) == s_run(cx, toks), cx == context.cx(), toks == tvs(tokens@),
        ensures operators@.len() == 0,
        decreases operators@.len(),
//@ end
}
