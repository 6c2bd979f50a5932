// ---------------------------------------------------------------- one line of the REPL
/// an equals sign at `i` that is no part of ==, !=, <= or >=
pub open spec fn s_assign_at(t: Seq<char>, i: int) -> bool {
    &&& 0 <= i < t.len() && t[i] == '='
    &&& i == 0 || !(t[i - 1] == '=' || t[i - 1] == '!' || t[i - 1] == '<' || t[i - 1] == '>')
    &&& i + 1 == t.len() || t[i + 1] != '='
}
pub open spec fn s_assign(t: Seq<char>) -> bool { exists|i: int| s_assign_at(t, i) }
//@ rewrite expression.chars().peekable() ==> v_chars(expression)
//@ extract eval/src/repl/mod.rs | fn is_assignment
//@ ret r
//@ spec
    ensures r == s_assign(expression@)
//@ start
    let ghost t = expression@; let ghost mut k: int = 0;
//@ loop 0
    invariant t == expression@, 0 <= k <= t.len(), chars.v() == t.skip(k), forall|i: int| 0 <= i < k ==> !s_assign_at(t, i), k == 0 ==> !(prev == '=' || prev == '!' || prev == '<' || prev == '>'), k > 0 ==> prev == t[k - 1],
    ensures chars.v().len() == 0, k == t.len(), forall|i: int| 0 <= i < k ==> !s_assign_at(t, i),
    decreases chars.v().len()
//@ loop 0 start
    proof { assert(t.skip(k).drop_first() =~= t.skip(k + 1)); assert(c == t[k]); k = k + 1;
        assert(s_assign_at(t, k - 1) <==> c == '=' && !(prev == '=' || prev == '!' || prev == '<' || prev == '>') && (k == t.len() || t.skip(k)[0] != '=')); }
//@ end
/// what a line of the session writes
pub enum Say<N> { Value(N), Error }
#[verifier::external_body] #[verifier::accept_recursive_types(N)]
pub struct LineWriter<N> { _p: core::marker::PhantomData<N> }
impl<N> LineWriter<N> {
    pub uninterp spec fn said(&self) -> Seq<Say<N>>;
    #[verifier::external_body]
    pub fn v_value(&mut self, v: &N) ensures final(self).said() == old(self).said().push(Say::Value(*v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_error<E>(&mut self, e: E) ensures final(self).said() == old(self).said().push(Say::Error) { unimplemented!() }
}
pub struct Done<N> { pub vars: Vars<N>, pub says: Seq<Say<N>>, pub exit: bool }
/// what the line does: `exit`, an assignment of a number to a name, or an expression, whose value is printed and becomes $result
pub open spec fn s_line<N>(b: Base, vars: Vars<N>, split: spec_fn(Seq<char>) -> Seq<Seq<char>>, line: Seq<char>) -> Done<N> {
    let t = s_trim(line); let none = Seq::<Say<N>>::empty();
    if t == "exit"@ { Done { vars, says: none, exit: true } }
    else if s_assign(t) {
        let p = s_split_at(t, '=');
        let (name, text) = (s_trim(p[0]), s_trim(p[1]));
        if p.len() == 2 && s_parse::<N>(text) is Some && s_can_set(b, name) { Done { vars: vars.insert(s_key(name), s_parse::<N>(text)->0), says: none, exit: false } }
        else { Done { vars, says: none.push(Say::Error), exit: false } }
    } else {
        match s_eval(b, vars, split, t) {
            Some(v) => if s_can_set(b, "$result"@) { Done { vars: vars.insert(s_key("$result"@), v), says: none.push(Say::Value(v)), exit: false } }
                else { Done { vars, says: none.push(Say::Value(v)).push(Say::Error), exit: false } },
            None => Done { vars, says: none.push(Say::Error), exit: false },
        }
    }
}
//@ extract eval/src/repl/mod.rs | fn eval_loop / const RESULT
//@ rewrite & str ==> & 'static str
//@ end
//@ rewrite expression.split($c).map(|$x| $y.trim().to_owned()).collect::<Vec<_>>() ==> v_split_trim(expression, $c)
//@ rewrite N::from_str($a) ==> v_parse::<N>($a)
//@ rewrite evaluator.mut_context().set_variable($a) ==> evaluator.v_set_variable($a)
//@ rewrite writer.$c.writeln_err($a) ==> writer.v_error($a)
//@ rewrite writer.$c.writeln($a) ==> writer.v_value($a)
//@ rewrite s.trim() ==> v_trim(&s)
//@ rewrite "exit" => ==> _ if v_eq(expression, "exit") =>
//@ extract eval/src/repl/mod.rs | fn eval_loop / closure repl.run
//@ hdr pub fn repl_line<N>(s: String, writer: &mut LineWriter<N>, evaluator: &mut Evaluator<'_, N>) -> Option<ControlFlow<()>>
//@ ret r
//@ spec
    ensures ({
        let d = s_line(old(evaluator).base(), old(evaluator).vars(), old(evaluator).split(), s@);
        &&& final(evaluator).base() == old(evaluator).base() && final(evaluator).split() == old(evaluator).split()
        &&& final(evaluator).vars() == d.vars && final(writer).said() =~= old(writer).said() + d.says
        &&& r == (if d.exit { Some(ControlFlow::<()>::Break(())) } else { None })
    })
//@ start
    let ghost says0 = writer.said();
//@ end
//@ unrewrite s.trim()
//@ unrewrite writer.$c
/// C22: a session is the fold of its lines; a line that is no assignment and has no value changes no variable,
/// and an assignment changes at most the variable it names
pub proof fn theorem_c22_line<N>(b: Base, vars: Vars<N>, split: spec_fn(Seq<char>) -> Seq<Seq<char>>, line: Seq<char>, key: Seq<char>)
    ensures ({
        let d = s_line(b, vars, split, line); let t = s_trim(line);
        &&& (d.says.len() == 1 && d.says[0] is Error) ==> d.vars == vars
        &&& (s_assign(t) && key != s_key(s_trim(s_split_at(t, '=')[0]))) ==> (d.vars.dom().contains(key) <==> vars.dom().contains(key)) && d.vars[key] == vars[key]
        &&& (!s_assign(t) && key != s_key("$result"@)) ==> (d.vars.dom().contains(key) <==> vars.dom().contains(key)) && d.vars[key] == vars[key]
        &&& d.says.len() >= 1 && d.says[0] is Value && d.says.len() == 1 ==> d.vars.dom().contains(s_key("$result"@)) && d.vars[s_key("$result"@)] == d.says[0]->Value_0
    })
{
}
