// ---------------------------------------------------------------- the REPL's own splitter rule and tokenizer
pub struct SplitRepl;
impl SplitRule for SplitRepl {
    open spec fn s_out(&self, c: char, rest: Seq<char>) -> Out { if c == '$' { Out::Data(piece(c, rest, run(p_ident(), rest))) } else { Out::Cont } }
    open spec fn s_len(&self, c: char, rest: Seq<char>) -> nat { if c == '$' { run(p_ident(), rest) } else { 0 } }
//@ extract eval/src/repl/mod.rs | fn repl_tokenizer / impl SplitRule for SplitRepl / fn split
//@ ret r
//@ vis none
//@ rewrite method next_if
//@ nested is_valid_char r
        ensures r == s_ident(*c)
//@ start
        let ghost c0 = c; let ghost r0 = rest.v();
        proof { lemma_run(p_ident(), r0); assert(r0.skip(0) =~= r0); }
//@ loop 0 before
        proof { assert(buf@ =~= piece(c0, r0, 0)); }
//@ loop 0
        invariant run_inv(p_ident(), c0, r0, rest.v(), buf@),
        ensures run_inv(p_ident(), c0, r0, rest.v(), buf@), rest.v().len() == 0 || !s_ident(rest.v()[0]),
        decreases rest.v().len()
//@ loop 0 start
        let ghost t1 = buf@;
        proof {
            assert(exists|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(p_ident(), c0, r0, w, t1));
            let w = choose|w: Seq<char>| w.len() > 0 && w[0] == c && w.drop_first() == rest.v() && run_inv(p_ident(), c0, r0, w, t1);
            lemma_run_step(p_ident(), c0, r0, w, t1);
        }
//@ end
}
/// the rules of the REPL's tokenizer: (binary literals,) `$` names, numbers, names, runs of operators, spaces skipped
pub open spec fn p_op2() -> spec_fn(char) -> bool { |c: char| s_opch(c) && c != '$' }
pub open spec fn acts_ops<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, k: int) -> bool {
    &&& forall|c: char, rest: Seq<char>| #[trigger] rules[k].s_out(c, rest) == (if p_op2()(c) { Out::Data(piece(c, rest, run(p_op2(), rest))) } else { Out::Cont })
    &&& forall|c: char, rest: Seq<char>| #[trigger] rules[k].s_len(c, rest) == (if p_op2()(c) { run(p_op2(), rest) } else { 0 })
}
impl<'a> DefaultSplitterBuilder<'a> {
    fn v_rule_ops(self, o: SplitWithOperators) -> (r: DefaultSplitterBuilder<'a>)
        ensures r.whitespace_option == self.whitespace_option, r.rules@.len() == self.rules@.len() + 1,
            (forall|c: char| #[trigger] o.has(c) == (s_opch(c) && c != '$')) ==> acts_ops(r.rules@, self.rules@.len() as int),
            forall|k: int| 0 <= k < self.rules@.len() ==> #[trigger] r.rules@[k] == self.rules@[k],
    {
        proof { if forall|c: char| #[trigger] o.has(c) == (s_opch(c) && c != '$') { assert(o.p() =~= p_op2()); } }
        self.rule(o)
    }
}
pub open spec fn repl_rules<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, binary: bool) -> bool {
    let b = if binary { 1int } else { 0 };
    &&& rules.len() == 5 + b && (binary ==> acts(rules, 0, SplitBinary))
    &&& acts(rules, b, SplitRepl) && acts(rules, b + 1, SplitNumeric) && acts(rules, b + 2, SplitIdentifier) && acts_ops(rules, b + 3) && acts(rules, b + 4, SkipWhitespace)
}
pub proof fn lemma_repl_rules<'a>(rules: Seq<Box<dyn SplitRule + 'a>>, binary: bool)
    requires repl_rules(rules, binary),
    ensures cont_ok(rules),
{
    let b = if binary { 1int } else { 0 };
    assert forall|k: int, c: char, rest: Seq<char>| 0 <= k < rules.len() && #[trigger] rules[k].s_out(c, rest) is Cont implies rules[k].s_len(c, rest) == 0 by {
        if k == b + 3 { assert(p_op2()(c) == (s_opch(c) && c != '$')); }
        if k == b { assert(rules[k].s_out(c, rest) == SplitRepl.s_out(c, rest)); assert(rules[k].s_len(c, rest) == SplitRepl.s_len(c, rest)); }
        if k == b + 1 { assert(rules[k].s_out(c, rest) == SplitNumeric.s_out(c, rest)); assert(rules[k].s_len(c, rest) == SplitNumeric.s_len(c, rest)); }
        if k == b + 2 { assert(rules[k].s_out(c, rest) == SplitIdentifier.s_out(c, rest)); assert(rules[k].s_len(c, rest) == SplitIdentifier.s_len(c, rest)); }
        if k == b + 4 { assert(rules[k].s_out(c, rest) == SkipWhitespace.s_out(c, rest)); assert(rules[k].s_len(c, rest) == SkipWhitespace.s_len(c, rest)); }
        if k == b - 1 { assert(rules[k].s_out(c, rest) == SplitBinary.s_out(c, rest)); assert(rules[k].s_len(c, rest) == SplitBinary.s_len(c, rest)); }
    }
}
fn v_repl_splitter<'a, N>(sp: DefaultSplitter<'a>, Ghost(binary): Ghost<bool>) -> (r: Tokenizer<'a, N>)
    requires repl_rules(sp.rules@, binary),
    ensures r.rules() == sp.rules@, r.split() == splitf(sp.rules@),
{
    proof { lemma_repl_rules(sp.rules@, binary); }
    Tokenizer::with_splitter(sp)
}
//@ extract eval/src/repl/mod.rs | fn repl_tokenizer
//@ hdr fn repl_tokenizer<'a, N>(is_binary: bool) -> Tokenizer<'a, N>
//@ ret r
//@ bodyrewrite . rule ( rules::SplitWithOperators $a ) ==> . v_rule_ops ( rules::SplitWithOperators $a )
//@ bodyrewrite Tokenizer::with_splitter ( $a ) ==> v_repl_splitter ( $a , Ghost(is_binary) )
//@ bodyrewrite struct SplitRepl; ==>
//@ bodyrewrite impl SplitRule for SplitRepl { $a } ==>
//@ spec
    ensures repl_rules(r.rules(), is_binary), r.split() == splitf(r.rules()),
//@ end

// ---------------------------------------------------------------- key events (trusted: crossterm delivers some sequence of them)
pub enum KeyCode { Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert, F(u8), Char(char), Null, Esc }
#[verifier::external_body] pub struct KeyModifiers { _p: () }
pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers }
#[verifier::external_body] pub struct MouseEvent { _p: () }
pub enum Event { Key(KeyEvent), Mouse(MouseEvent), Resize(u16, u16) }
#[verifier::external_body] pub struct Events { _p: () }
impl Events {
    /// the events read so far
    pub uninterp spec fn seen(&self) -> Seq<Event>;
    #[verifier::external_body]
    pub fn v_read(&mut self) -> (r: Event) ensures final(self).seen() == old(self).seen().push(r), final(self).seen().drop_last() == old(self).seen(), final(self).seen().last() == r, final(self).seen().len() == old(self).seen().len() + 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_poll(&mut self) -> (r: bool) ensures final(self).seen() == old(self).seen() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_running(&mut self) -> (r: bool) ensures final(self).seen() == old(self).seen() { unimplemented!() }
}
/// the terminal: the texts the edited line was redrawn with
#[verifier::external_body] pub struct ReplWriter { _p: () }
impl ReplWriter {
    pub uninterp spec fn drawn(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: ReplWriter) { unimplemented!() }
    #[verifier::external_body] pub fn with_prompt_prefix(p: String) -> (r: ReplWriter) { unimplemented!() }
    #[verifier::external_body] pub fn v_put<T>(&mut self, t: T) ensures final(self).drawn() == old(self).drawn() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) ensures final(self).drawn() == old(self).drawn() { unimplemented!() }
    #[verifier::external_body] pub fn rewrite(&mut self, t: &String) ensures final(self).drawn() == old(self).drawn().push(t@) { unimplemented!() }
    #[verifier::external_body] pub fn v_goodbye(&mut self, t: &String) ensures final(self).drawn() == old(self).drawn() { unimplemented!() }
}
/// the handler of a line: its answer may depend on the lines it was given before
#[verifier::external_body] pub struct Handler { _p: () }
impl Handler {
    pub uninterp spec fn lines(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn answer(&self, lines: Seq<Seq<char>>) -> Option<ControlFlow<()>>;
    #[verifier::external_body]
    pub fn v_call(&mut self, s: String, w: &mut ReplWriter) -> (r: Option<ControlFlow<()>>)
        ensures final(self).lines() == old(self).lines().push(s@), r == old(self).answer(final(self).lines()),
            forall|l: Seq<Seq<char>>| #[trigger] final(self).answer(l) == old(self).answer(l), final(w).drawn() == old(w).drawn(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- the line editor and its history
//@ extract eval/src/collections/carray.rs | struct CircularArray
//@ end
impl<T> View for CircularArray<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.data@ } }
pub open spec fn pushed<T>(s: Seq<T>, cap: nat, x: T) -> Seq<T> {
    if cap == 0 { s } else if s.len() == cap { s.drop_first().push(x) } else { s.push(x) }
}
impl<T> CircularArray<T> {
    pub closed spec fn wf(&self) -> bool { self.data@.len() <= self.cap }
    pub closed spec fn scap(&self) -> nat { self.cap as nat }
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn new
//@ ret r
//@ spec
    ensures r.wf(), r@ == Seq::<T>::empty(), r.scap() == capacity,
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn push
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).scap() == old(self).scap(), final(self)@ == pushed(old(self)@, old(self).scap(), item),
//@ start
    let ghost d0 = self.data@;
//@ finish
    proof { assert(self.data@ =~= pushed(d0, self.cap as nat, item)); }
//@ end
//@ extract eval/src/collections/carray.rs | impl CircularArray<T> / fn len
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self@.len(), r <= self.scap(),
//@ end
//@ extract eval/src/collections/carray.rs | impl Index<usize> for CircularArray<T> / fn index
//@ ret r
//@ rewrite &Self::Output ==> &T
//@ rename v_at
//@ spec
    requires index < self@.len(),
    ensures *r == self@[index as int],
//@ end
}
/// `history.last() != Some(&s)`, by way of Deref to a slice
#[verifier::external_body]
fn v_last_differs(h: &CircularArray<String>, s: &String) -> (r: bool) ensures r == !(h@.len() > 0 && h@.last()@ == s@) { unimplemented!() }
pub struct Model {
    /// the line being edited, the kept lines, the position among them, the lines entered, what the edited line was redrawn with
    pub buf: Seq<char>, pub hist: Seq<Seq<char>>, pub cur: nat, pub lines: Seq<Seq<char>>, pub drawn: Seq<Seq<char>>, pub over: bool,
}
pub open spec fn s_start(drawn: Seq<Seq<char>>) -> Model { Model { buf: Seq::empty(), hist: Seq::empty(), cur: 0, lines: Seq::empty(), drawn, over: false } }
/// what one event does
pub open spec fn s_step(m: Model, e: Event, cap: nat, answer: spec_fn(Seq<Seq<char>>) -> Option<ControlFlow<()>>) -> Model {
    match e {
        Event::Key(k) => match k.code {
            KeyCode::Char(c) => Model { buf: m.buf.push(c), ..m },
            KeyCode::Backspace => if m.buf.len() > 0 { Model { buf: m.buf.drop_last(), ..m } } else { m },
            KeyCode::Esc => Model { over: true, ..m },
            KeyCode::Up => if m.cur > 0 { Model { buf: m.hist[m.cur - 1], cur: (m.cur - 1) as nat, drawn: m.drawn.push(m.hist[m.cur - 1]), ..m } } else { m },
            KeyCode::Down => if m.cur < m.hist.len() {
                let b = if m.cur + 1 < m.hist.len() { m.hist[(m.cur + 1) as int] } else { Seq::<char>::empty() };
                Model { buf: b, cur: m.cur + 1, drawn: m.drawn.push(b), ..m } } else { m },
            KeyCode::Enter => {
                let q = Model { buf: Seq::empty(), lines: m.lines.push(m.buf), ..m };
                match answer(q.lines) {
                    Some(ControlFlow::Break(_)) => Model { over: true, ..q },
                    Some(ControlFlow::Continue(_)) => q,
                    None => if s_trim(m.buf).len() > 0 {
                        let h = if m.hist.len() > 0 && m.hist.last() == m.buf { m.hist } else { pushed(m.hist, cap, m.buf) };
                        Model { hist: h, cur: h.len(), ..q }
                    } else { q },
                }
            },
            _ => m,
        },
        _ => m,
    }
}
pub open spec fn s_session(m0: Model, es: Seq<Event>, cap: nat, answer: spec_fn(Seq<Seq<char>>) -> Option<ControlFlow<()>>) -> Model decreases es.len() {
    if es.len() == 0 { m0 } else { s_step(s_session(m0, es.drop_last(), cap, answer), es.last(), cap, answer) }
}
pub open spec fn s_views(h: Seq<String>) -> Seq<Seq<char>> { h.map_values(|s: String| s@) }
pub proof fn lemma_pushed_views(h: Seq<String>, cap: nat, s: String)
    ensures s_views(pushed(h, cap, s)) == pushed(s_views(h), cap, s@)
{
    assert(s_views(pushed(h, cap, s)) =~= pushed(s_views(h), cap, s@));
}
/// `s.trim().len() > 0`
#[verifier::external_body]
pub fn v_trim_nonempty(s: &String) -> (r: bool) ensures r == (s_trim(s@).len() > 0) { unimplemented!() }
//@ extract eval/src/repl/repl.rs | struct Repl
//@ end
impl Repl {
    pub closed spec fn size(&self) -> usize { self.history_size }
    pub closed spec fn drawn(&self) -> Seq<Seq<char>> { self.writer.drawn() }
    /// C22: whatever the keys, the lines given to the handler and the redrawn texts are those of the model
//@ extract eval/src/repl/repl.rs | impl Repl / fn run
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ hdr pub fn run(v_repl: Repl, f: &mut Handler, src: &mut Events)
//@ bodyrewrite self ==> v_self
//@ bodyrewrite let running = $a; ==>
//@ bodyrewrite let notifier = $a; ==>
//@ bodyrewrite ctrlc::set_handler($a).expect($b); ==>
//@ bodyrewrite running.load($a) ==> src.v_running()
//@ bodyrewrite event::poll($a).unwrap() ==> src.v_poll()
//@ bodyrewrite event::read().unwrap() ==> src.v_read()
//@ bodyrewrite f(s.clone(), $w) ==> f.v_call(s.clone(), $w)
//@ bodyrewrite buf.drain(..).collect::<String>() ==> v_take(&mut buf)
//@ bodyrewrite buf.len() > 0 ==> !v_is_empty(&buf)
//@ bodyrewrite buf.is_empty() ==> v_is_empty(&buf)
//@ bodyrewrite buf.pop() ==> v_pop(&mut buf)
//@ bodyrewrite buf.push($a) ==> v_push(&mut buf, $a)
//@ bodyrewrite buf.clear() ==> v_clear(&mut buf)
//@ bodyrewrite buf.push_str(&history[$a]) ==> v_push_str(&mut buf, history.v_at($a).as_str())
//@ bodyrewrite s.trim().len() > 0 ==> v_trim_nonempty(&s)
//@ bodyrewrite !s.trim().is_empty() ==> v_trim_nonempty(&s)
//@ bodyrewrite history.last() != Some(&s) ==> v_last_differs(&history, &s)
//@ bodyrewrite writer.green().writeln($a) ==> writer.v_put($a)
//@ bodyrewrite writer.write_prompt_prefix() ==> writer.v_put(())
//@ bodyrewrite writer.writeln($a) ==> writer.v_put($a)
//@ bodyrewrite writer.write($a) ==> writer.v_put($a)
//@ bodyrewrite writer.fg($a).rewrite($b) ==> writer.v_goodbye($b)
//@ spec
    requires old(f).lines() == Seq::<Seq<char>>::empty(), old(src).seen() == Seq::<Event>::empty(),
    ensures ({
        let m = s_session(s_start(v_repl.drawn()), final(src).seen(), v_repl.size() as nat, |l: Seq<Seq<char>>| old(f).answer(l));
        final(f).lines() == m.lines
    })
//@ start
    let mut v_self = v_repl;
    let ghost ans = |l: Seq<Seq<char>>| f.answer(l); let ghost m0 = s_start(v_repl.drawn()); let ghost cap = v_repl.size() as nat;
//@ loop 0 before
    proof { assert(s_views(history@) =~= Seq::<Seq<char>>::empty()); }
//@ loop 0
    invariant history.wf(), history.scap() == cap, forall|l: Seq<Seq<char>>| #[trigger] f.answer(l) == ans(l),
        ({ let m = s_session(m0, src.seen(), cap, ans);
           f.lines() == m.lines && buf@ == m.buf && s_views(history@) == m.hist && history_cursor == m.cur && m.cur <= m.hist.len() && v_self.writer.drawn() == m.drawn }),
    ensures ({ let m = s_session(m0, src.seen(), cap, ans); f.lines() == m.lines && v_self.writer.drawn() == m.drawn }),
//@ end
}
