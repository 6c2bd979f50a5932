// Verus unit: eval/src/main.rs, the commands of the app (C22): each command line does what its command is for.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@ rewrite # [ clap ( $a ) ] ==>
//@ rewrite # [ clap ( about ) ] ==>

//@ extract eval/src/main.rs | enum EvalType
//@ end
//@ extract eval/src/main.rs | enum Commands
//@ end
//@ extract eval/src/main.rs | struct Cli
//@ end
/// what clap makes of the command line
uninterp spec fn s_cli() -> Cli;
impl Cli { #[verifier::external_body] fn parse() -> (r: Cli) ensures r == s_cli() { unimplemented!() } }
//@ extract eval/src/list.rs | enum ListKind
//@ end
//@ extract eval/src/repl/mod.rs | struct ReplConfig
//@ end

// ---------------------------------------------------------------- what the app does, in order
/// the eval command's answer (unit repl: the library's value in the type's context, printed, or its error)
pub uninterp spec fn s_eval(t: EvalType, e: Seq<char>) -> core::result::Result<Seq<char>, Error>;
#[verifier::external_body]
pub struct Error { _p: () }
pub struct EvalExpr { pub t: EvalType }
impl EvalExpr {
    pub fn new(t: EvalType) -> (r: EvalExpr) ensures r.t == t { EvalExpr { t } }
    #[verifier::external_body]
    pub fn eval(&self, expr: &str) -> (r: core::result::Result<String, Error>)
        ensures match r { Ok(v) => s_eval(self.t, expr@) == Ok::<Seq<char>, Error>(v@), Err(e) => s_eval(self.t, expr@) == Err::<Seq<char>, Error>(e) } { unimplemented!() }
}
pub ghost enum Act { Colors(bool), Out(Seq<char>), Err(Error), Repl(ReplConfig), List(EvalType, ListKind) }
pub struct App { pub acts: Ghost<Seq<Act>> }
impl App {
    #[verifier::external_body]
    pub fn colors(&mut self, on: bool) ensures final(self).acts@ == old(self).acts@.push(Act::Colors(on)) { unimplemented!() }
    #[verifier::external_body]
    pub fn out(&mut self, t: String) ensures final(self).acts@ == old(self).acts@.push(Act::Out(t@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn err(&mut self, e: Error) ensures final(self).acts@ == old(self).acts@.push(Act::Err(e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn run_repl(&mut self, c: ReplConfig) ensures final(self).acts@ == old(self).acts@.push(Act::Repl(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn list(&mut self, t: EvalType, k: ListKind) ensures final(self).acts@ == old(self).acts@.push(Act::List(t, k)) { unimplemented!() }
}
/// what a command line asks for
spec fn s_asked(c: Commands) -> Act {
    match c {
        Commands::Eval { v_raw_type, expression } => match s_eval(v_raw_type, expression@) { Ok(v) => Act::Out(v), Err(e) => Act::Err(e) },
        Commands::Repl { v_raw_type, history } => Act::Repl(ReplConfig { history_size: history, eval_type: v_raw_type }),
        Commands::Constants { v_raw_type } => Act::List(v_raw_type, ListKind::Constants),
        Commands::Operators { v_raw_type } => Act::List(v_raw_type, ListKind::Operators),
        Commands::Functions { v_raw_type } => Act::List(v_raw_type, ListKind::Functions),
    }
}
//@ extract eval/src/main.rs | fn main
//@ rewrite fn main ( ) ==> fn app_main ( app : & mut App )
//@ rewrite ColorWriter :: new ( ) . writeln ( $a ) ==> app . out ( $a )
//@ rewrite ColorWriter :: new ( ) . red ( ) . writeln_err ( $a ) ==> app . err ( $a )
//@ rewrite ColorWriter :: new ( ) . writeln_err ( $a ) ==> app . err ( $a )
//@ rewrite repl :: run_repl ( ==> app . run_repl (
//@ rewrite list :: list ( ==> app . list (
//@ rewrite set_use_colors ( ==> app . colors (
//@ spec
        ensures final(app).acts@ == old(app).acts@.push(Act::Colors(!s_cli().no_color)).push(s_asked(s_cli().commands)),
//@ end
fn main() {}
} // verus!
