// Model of source text and positions (assumed contracts marked external_body)
verus! {
// ---- what the statements say about positions -----------------------------
pub open spec fn is_nl(c: char) -> bool {
    c == '\r' || c == '\n' || c == '\x0C' || c == '\u{85}' || c == '\u{2028}' || c == '\u{2029}'
}
/// a line break ends at character `i`: CRLF counts as one
pub open spec fn breaks(s: Seq<char>, i: int) -> bool {
    is_nl(s[i]) && !(s[i] == '\n' && i > 0 && s[i - 1] == '\r')
}
pub open spec fn line_at(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { line_at(s, i - 1) + if breaks(s, i - 1) { 1int } else { 0 } }
}
/// display width by the unicode-width crate; None for control characters
pub uninterp spec fn width_of(c: char) -> Option<usize>;
pub broadcast axiom fn width_small(c: char)
    ensures (#[trigger] width_of(c)) is Some ==> width_of(c)->0 <= 2;
pub broadcast axiom fn newline_is_control()
    ensures #[trigger] width_of('\n') is None;
pub open spec fn col_width(c: char) -> int {
    if c == '\t' { 8 } else if width_of(c) is Some { width_of(c)->0 as int } else { 0 }
}
pub open spec fn col_at(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if is_nl(s[i - 1]) { 0 } else { col_at(s, i - 1) + col_width(s[i - 1]) }
}
pub open spec fn utf8_len(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 }
    else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn off_at(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else { off_at(s, i - 1) + utf8_len(s[i - 1]) }
}
/// texts that fit into memory
pub open spec fn fits(s: Seq<char>) -> bool { 8 * s.len() + 8 <= usize::MAX }

pub proof fn bounds(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures 0 <= off_at(s, i) <= 4 * i, 0 <= line_at(s, i) <= i, 0 <= col_at(s, i) <= 8 * i,
    decreases i,
{
    broadcast use width_small;
    if i > 0 { bounds(s, i - 1); }
}
pub proof fn off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures off_at(s, i) <= off_at(s, j), i < j ==> off_at(s, i) < off_at(s, j),
    decreases j,
{
    if i < j { off_mono(s, i, j - 1); }
}
/// `n` characters before `i` that are one byte and one column wide and no
/// line breaks: positions go back by `n`
pub open spec fn plain(c: char) -> bool {
    (c as u32) < 0x80 && !is_nl(c) && c != '\t' && width_of(c) == Some(1usize)
}
pub proof fn back(s: Seq<char>, i: int, n: int)
    requires 0 <= n <= i <= s.len(), forall|k: int| i - n <= k < i ==> plain(#[trigger] s[k]),
    ensures
        off_at(s, i - n) == off_at(s, i) - n,
        line_at(s, i - n) == line_at(s, i),
        col_at(s, i - n) == col_at(s, i) - n,
    decreases n,
{
    if n > 0 { assert(plain(s[i - 1])); back(s, i - 1, n - 1); }
}

// ---- std: strings and characters ------------------------------------------
#[verifier::external_body]
pub struct MChars { x: u8 }
impl MChars {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
                && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'static str)
        ensures r@ == self.rest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<F: Fn(char) -> usize>(self, f: F) -> (r: MWidths)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures
            r.items().len() == self.rest().len(),
            forall|i: int| 0 <= i < self.rest().len() ==>
                f.ensures((self.rest()[i],), #[trigger] r.items()[i]),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct MWidths { x: u8 }
pub open spec fn total(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() }
}
impl MWidths {
    pub uninterp spec fn items(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn sum(self) -> (r: usize)
        requires total(self.items()) <= usize::MAX,
        ensures r == total(self.items()),
    { unimplemented!() }
}
pub trait MStr {
    spec fn chars_of(&self) -> Seq<char>;
    fn mchars(&self) -> (r: MChars) ensures r.rest() == self.chars_of();
    fn mlen(&self) -> (r: usize) ensures r == off_at(self.chars_of(), self.chars_of().len() as int);
}
impl MStr for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn mchars(&self) -> (r: MChars) { unimplemented!() }
    #[verifier::external_body]
    fn mlen(&self) -> (r: usize) { unimplemented!() }
}
pub trait MChar {
    spec fn c(&self) -> char;
    fn mlen_utf8(self) -> (r: usize) ensures r == utf8_len(self.c());
}
impl MChar for char {
    open spec fn c(&self) -> char { *self }
    #[verifier::external_body]
    fn mlen_utf8(self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn char_width(c: char) -> (r: Option<usize>) ensures r == width_of(c) { unimplemented!() }
}
