// ---------------------------------------------------------------- trusted: ASCII characters
pub open spec fn alow(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8 + 32) as u8) as char } else { c } }
/// `char::to_lowercase` of an ASCII character
pub broadcast axiom fn ax_lower(c: char)
    requires c < '\u{80}',
    ensures #[trigger] lower(c) == seq![alow(c)];
/// a visible ASCII character is neither white space nor a control character
pub broadcast axiom fn ax_graphic(c: char)
    requires '!' <= c <= '~',
    ensures !#[trigger] s_ws(c);
pub broadcast axiom fn ax_graphic2(c: char)
    requires '!' <= c <= '~',
    ensures !#[trigger] s_control(c);
/// a name of visible ASCII characters, ignoring case
pub proof fn lemma_lo(s: Seq<char>)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> '!' <= #[trigger] s[i] <= '~',
    ensures lo(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] lo(s)[i]) == seq![alow(s[i])], lo(s)[0][0] == alow(s[0]), s_valid(s),
{
    broadcast use ax_lower, ax_graphic, ax_graphic2;
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] lo(s)[i]) == seq![alow(s[i])] by { assert(lo(s)[i] == lower(s[i])); }
    assert(s_ws(s[0]) == false);
}
