// ---------------------------------------------------------------- the session is set up as C22 says
//@ extract eval/src/repl/repl.rs | struct ReplBuilder
//@ end
impl ReplBuilder {
    pub closed spec fn size(&self) -> Option<usize> { self.history_size }
//@ extract eval/src/repl/repl.rs | impl ReplBuilder / fn new
//@ ret r
//@ spec
    ensures r.size() is None
//@ end
//@ repeat FN P | prompt_prefix prefix | pre_text pre_text | exit_text exit_text
//@ extract eval/src/repl/repl.rs | impl ReplBuilder / fn @FN@
//@ hdr pub fn @FN@(self, @P@: &str) -> ReplBuilder
//@ ret r
//@ bodyrewrite self ==> v_self
//@ spec
    ensures r.size() == self.size()
//@ start
    let mut v_self = self;
//@ end
//@ endrepeat
//@ extract eval/src/repl/repl.rs | impl ReplBuilder / fn history_size
//@ hdr pub fn history_size(self, size: Option<usize>) -> ReplBuilder
//@ ret r
//@ bodyrewrite self ==> v_self
//@ spec
    ensures r.size() == size
//@ start
    let mut v_self = self;
//@ end
//@ extract eval/src/repl/repl.rs | impl ReplBuilder / fn build
//@ ret r
//@ spec
    ensures r.size() == (match self.size() { Some(n) => n, None => 100 })
//@ end
}
//@ extract eval/src/repl/mod.rs | struct ReplConfig
//@ end
/// C07 for the name `$result`: a variable name that no fresh context has taken (every session of the search runs this)
#[verifier::external_body]
pub proof fn axiom_result_name(t: EvalType) ensures s_can_set(s_base(t), "$result"@) { unimplemented!() }
#[verifier::external_body]
pub fn v_set_result<'a, N>(c: &mut DefaultContext<'a, N>, name: &str, value: N)
    requires s_can_set(old(c).base(), name@),
    ensures final(c).base() == old(c).base(), final(c).vars() == old(c).vars().insert(s_key(name@), value),
{ unimplemented!() }
/// what a session of a number type starts with: `Repl::run` on this repl, with `repl_line` on this evaluator as its handler
pub open spec fn s_begins<N>(ev: Evaluator<'_, N>, size: usize, cfg: ReplConfig) -> bool {
    &&& ev.base() == s_base(cfg.eval_type)
    &&& ev.vars() == Map::<Seq<char>, N>::empty().insert(s_key("$result"@), s_zero::<N>())
    &&& exists|rules: Seq<Box<dyn SplitRule>>| #[trigger] repl_rules(rules, cfg.eval_type is Binary) && ev.split() == splitf(rules)
    &&& size == (match cfg.history_size { Some(n) => n, None => 100 })
}
#[verifier::external_body]
fn v_run<N>(r: Repl, ev: &mut Evaluator<'_, N>, Ghost(cfg): Ghost<ReplConfig>)
    requires s_begins(*old(ev), r.size(), cfg),
{ unimplemented!() }
//@ extract eval/src/repl/mod.rs | fn eval_loop
//@ hdr fn eval_loop<'a, N>(config: ReplConfig, v_context: DefaultContext<'a, N>)
//@ bodyrewrite factory() ==> v_context
//@ bodyrewrite const RESULT: $a; ==>
//@ bodyrewrite context.set_variable($a).unwrap() ==> v_set_result(&mut context, $a)
//@ bodyrewrite N::zero() ==> v_zero::<N>()
//@ bodyrewrite repl.run($a) ==> v_run(repl, &mut evaluator, Ghost(v_cfg))
//@ spec
    requires v_context.base() == s_base(config.eval_type), v_context.vars() == Map::<Seq<char>, N>::empty(),
//@ start
    let ghost v_cfg = config;
    proof { axiom_result_name(config.eval_type); }
//@ end
/// C22: a session is set up for its number type
//@ extract eval/src/repl/mod.rs | fn run_repl
//@ bodyrewrite move || $c ==> $c
//@ end
