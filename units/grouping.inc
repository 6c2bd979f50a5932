// ---------------------------------------------------------------- grouping tables (verified, see also C15)
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
//@ extract prexel/src/context.rs | enum Grouping
//@ end
pub open spec fn g_of(c: char) -> Option<Grouping> {
    if c == '(' || c == ')' { Some(Grouping::Parenthesis) }
    else if c == '[' || c == ']' { Some(Grouping::Bracket) }
    else if c == '{' || c == '}' { Some(Grouping::Brace) }
    else { None }
}
pub open spec fn g_open(g: Grouping) -> char { match g { Grouping::Parenthesis => '(', Grouping::Bracket => '[', Grouping::Brace => '{' } }
pub open spec fn g_close(g: Grouping) -> char { match g { Grouping::Parenthesis => ')', Grouping::Bracket => ']', Grouping::Brace => '}' } }
/// the closing symbol of the pair `c` belongs to
pub open spec fn close_of(c: char) -> Option<char> { match g_of(c) { Some(g) => Some(g_close(g)), None => None } }
/// the opening symbol for closing symbol `c`
pub open spec fn open_for_s(c: char) -> Option<char> {
    match g_of(c) { Some(g) => if g_close(g) == c { Some(g_open(g)) } else { None }, None => None }
}
/// the closing symbol for opening symbol `c`
pub open spec fn close_for_s(c: char) -> Option<char> {
    match g_of(c) { Some(g) => if g_open(g) == c { Some(g_close(g)) } else { None }, None => None }
}
pub open spec fn s_is_open(c: char) -> bool { c == '(' || c == '[' || c == '{' }
pub open spec fn s_is_close(c: char) -> bool { c == ')' || c == ']' || c == '}' }
pub assume_specification<T> [ Option::<Option<T>>::flatten ] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
//@ fnset prexel/src/context.rs | impl Grouping | new symbols open close is_open is_close close_for open_for
impl Grouping {
//@ extract prexel/src/context.rs | impl Grouping / fn new
//@ ret r
//@ spec
        ensures r == g_of(c)
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn symbols
//@ ret r
//@ spec
        ensures r == (g_open(*self), g_close(*self))
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn open
//@ ret r
//@ spec
        ensures r == g_open(*self)
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn close
//@ ret r
//@ spec
        ensures r == g_close(*self)
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn is_open
//@ ret r
//@ spec
        ensures r == (g_open(*self) == c)
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn is_close
//@ ret r
//@ spec
        ensures r == (g_close(*self) == c)
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn close_for
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == (if g_open(*self) == c { match g_of(c) { Some(g) => Some(g_close(g)), None => None } } else { None })
//@ end
//@ extract prexel/src/context.rs | impl Grouping / fn open_for
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == (if g_close(*self) == c { match g_of(c) { Some(g) => Some(g_open(g)), None => None } } else { None })
//@ end
}
//@ extract prexel/src/context.rs | struct Config
//@ rewrite grouping: HashSet<Grouping> ==> pub grouping: HashSet<Grouping>
//@ end
impl Config {
//@ extract prexel/src/context.rs | impl Config / fn get_group_symbol
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == (match g_of(symbol) { Some(g) => Some((g_open(g), g_close(g))), None => None })
//@ end
//@ extract prexel/src/context.rs | impl Config / fn get_group_open_for
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == open_for_s(group_close)
//@ end
//@ extract prexel/src/context.rs | impl Config / fn get_group_close_for
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == close_for_s(group_open)
//@ end
//@ extract prexel/src/context.rs | impl Config / fn is_group_close
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == s_is_close(group_close)
//@ end
//@ extract prexel/src/context.rs | impl Config / fn is_group_open
//@ ret r
//@ rewrite method map
//@ spec
        ensures r == s_is_open(group_open)
//@ end
}

