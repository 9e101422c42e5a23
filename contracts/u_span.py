import re
from vf import Unit
L = "<traits::sealed::Sealed for LineSpan>::"
S = "<traits::sealed::Sealed for Span>::"

def unit():
    u = Unit("span", ["p_text.rs"], subs=[
        ("unicode_width::UnicodeWidthChar::width(", "char_width("),
        (".chars()", ".mchars()"), (".len_utf8()", ".mlen_utf8()"),
        ("text.len()", "text.mlen()"),
        ("traits::sealed::", ""), ("sealed::", ""), ("chumsky::", ""),
        ("std::ops::Range<", "Range<"), ("std::cmp::", ""),
        ("std::hash::", ""),
        (re.compile(r"where Self: Span\b"), ""),
    ])
    u.dropped = [
        "trait methods are emitted as inherent methods of the same type",
        "str::chars, str::len, char::len_utf8 and unicode-width are renamed "
        "to functions with assumed contracts",
        "attributes, visibility and doc comments",
    ]
    u.text("verus!{ use std::cmp::Ordering; use std::ops::Range; "
           "broadcast use {width_small, newline_is_control}; }")
    for t in ("Spanned", "Span", "LineSpan", "OffsetTracker", "LineTracker"):
        u.type("span.rs", t)
    u.type("span.rs", "LinePos", attrs="#[derive(Clone, Copy)]")
    u.text("""
verus!{
pub open spec fn pos(s: Seq<char>, i: int) -> LinePos {
    LinePos { offset: off_at(s, i) as usize, line: line_at(s, i) as usize, column: col_at(s, i) as usize }
}
pub struct Map<I, F>(pub I, pub F);
pub struct Stream<S, T> { pub eoi: S, pub it: Map<MChars, T> }
impl<S, T> Stream<S, T> {
    pub fn from_iter(eoi: S, it: Map<MChars, T>) -> (r: Self)
        ensures r.eoi == eoi, r.it == it { Stream { eoi, it } }
}
pub struct ErrorSpan { pub offset: usize, pub length: usize }
impl From<(usize, usize)> for ErrorSpan {
    fn from(x: (usize, usize)) -> (r: ErrorSpan) { ErrorSpan { offset: x.0, length: x.1 } }
}
impl vstd::std_specs::convert::FromSpecImpl<(usize, usize)> for ErrorSpan {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: (usize, usize)) -> ErrorSpan { ErrorSpan { offset: x.0, length: x.1 } }
}
impl OffsetTracker {
    pub open spec fn at(&self, s: Seq<char>, i: int) -> bool {
        0 <= i <= s.len() && fits(s) && self.offset == off_at(s, i)
    }
}
impl LineTracker {
    pub open spec fn at(&self, s: Seq<char>, i: int) -> bool {
        0 <= i <= s.len() && fits(s) && self.offset == off_at(s, i)
        && self.line == line_at(s, i) && self.column == col_at(s, i)
        && self.caret_return == (i > 0 && s[i - 1] == '\\r')
    }
}
// columns of the last line: the sum over the text after the last break
pub open spec fn last_break(s: Seq<char>, i: int) -> int decreases i {
    if i <= 0 { 0 } else if breaks(s, i - 1) { i } else { last_break(s, i - 1) }
}
pub proof fn last_break_in(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures 0 <= last_break(s, i) <= i
    decreases i
{ if i > 0 { last_break_in(s, i - 1); } }
pub open spec fn tail_width(s: Seq<char>, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { tail_width(s, a, b - 1) + col_width(s[b - 1]) }
}
// a newline character other than the LF of a CRLF is a break; the LF is
// followed by column 0 as well, and has no width
pub proof fn col_is_tail(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), width_of('\\n') is None,
    ensures col_at(s, i) == tail_width(s, last_break(s, i), i),
    decreases i
{
    if i > 0 {
        col_is_tail(s, i - 1);
        last_break_in(s, i - 1);
        if is_nl(s[i - 1]) && !breaks(s, i - 1) {
            assert(s[i - 2] == '\\r');
            assert(breaks(s, i - 2));
            assert(last_break(s, i - 1) == i - 1);
        }
    }
}
pub proof fn tail_is_total(s: Seq<char>, a: int, b: int, w: Seq<usize>)
    requires 0 <= a <= b <= s.len(), w.len() == b - a,
        forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] == col_width(s[a + k]),
    ensures total(w) == tail_width(s, a, b)
    decreases b - a
{
    if b > a {
        assert(w.drop_last().len() == b - 1 - a);
        tail_is_total(s, a, b - 1, w.drop_last());
        assert(w[b - 1 - a] == col_width(s[a + (b - 1 - a)]));
    }
}
}
""")
    imp = lambda t, g="": ("impl%s %s {" % (g, t), "}")
    A = dict
    u.fn("span.rs", "<Span>::length", "ensures ret == if self.1 >= self.0 { self.1 - self.0 } else { 0 }",
         wrap=imp("Span"), rename="length_pub", props=["C10"])
    for T, o in (("Span", ""), ("LineSpan", ".offset")):
        u.fn("span.rs", "<Into<ErrorSpan> for %s>::into" % T,
             "ensures ret.offset == self.0%s, self.1%s >= self.0%s ==> ret.length == self.1%s - self.0%s"
             % (o, o, o, o, o),
             wrap=imp(T), rename="into_error_span", props=["C12", "C23"])
    u.fn("span.rs", "<chumsky::Span for Span>::new",
         "ensures ret.0 == range.start, ret.1 == range.end", wrap=imp("Span"),
         subs=[("range.start()", "range.start"), ("range.end()", "range.end")],
         props=["C10", "C12", "C23"])
    u.fn("span.rs", "<chumsky::Span for Span>::start", "ensures ret == self.0",
         wrap=imp("Span"), props=["C10"])
    u.fn("span.rs", "<chumsky::Span for Span>::end", "ensures ret == self.1",
         wrap=imp("Span"), props=["C10"])
    u.fn("span.rs", "<chumsky::Span for LineSpan>::new",
         "ensures ret.0 == range.start, ret.1 == range.end", wrap=imp("LineSpan"),
         props=["C11"])
    u.fn("span.rs", "<chumsky::Span for LineSpan>::start", "ensures ret == self.0",
         wrap=imp("LineSpan"), props=["C11"])
    u.fn("span.rs", "<chumsky::Span for LineSpan>::end", "ensures ret == self.1",
         wrap=imp("LineSpan"), props=["C11"])
    # trackers
    u.fn("span.rs", "<traits::sealed::SpanTracker for sealed::OffsetTracker>::next_span", """
    requires exists|s: Seq<char>, i: int| #[trigger] old(self).at(s, i) && i < s.len() && s[i] == c,
    ensures forall|s: Seq<char>, i: int| #[trigger] old(self).at(s, i) && i < s.len() && s[i] == c ==>
        final(self).at(s, i + 1)
        && ret == Span(off_at(s, i) as usize, off_at(s, i + 1) as usize),
""", wrap=imp("OffsetTracker"), props=["C10", "C01"], pre="""proof {
        let (s, i) = choose|s: Seq<char>, i: int| #[trigger] self.at(s, i) && i < s.len() && s[i] == c;
        bounds(s, i); bounds(s, i + 1);
    }""")
    u.fn("span.rs", "<traits::sealed::SpanTracker for sealed::LineTracker>::next_span", """
    requires exists|s: Seq<char>, i: int| #[trigger] old(self).at(s, i) && i < s.len() && s[i] == c,
    ensures forall|s: Seq<char>, i: int| #[trigger] old(self).at(s, i) && i < s.len() && s[i] == c ==>
        final(self).at(s, i + 1) && ret == LineSpan(pos(s, i), pos(s, i + 1)),
""", wrap=imp("LineTracker"), props=["C11", "C01"], pre="""proof {
        let (s, i) = choose|s: Seq<char>, i: int| #[trigger] self.at(s, i) && i < s.len() && s[i] == c;
        bounds(s, i); bounds(s, i + 1);
        assert forall|s: Seq<char>, i: int| #[trigger] self.at(s, i) && i < s.len() && s[i] == c && c == '\\n' && self.caret_return
            implies col_at(s, i) == 0 && line_at(s, i + 1) == line_at(s, i) && col_at(s, i + 1) == 0 by {
            assert(is_nl(s[i - 1]));
        }
    }""")
    # helpers for error positions
    u.fn("span.rs", S + "at_start", """
    requires self.0 + chars <= usize::MAX
    ensures ret.0 == self.0, ret.1 == self.0 + chars""", wrap=imp("Span"), props=["C12"])
    u.fn("span.rs", S + "at_end", "ensures ret.0 == self.1, ret.1 == self.1",
         wrap=imp("Span"), props=["C12"])
    u.fn("span.rs", S + "before_start", """
    ensures ret.1 == self.0, chars <= self.0 ==> ret.0 == self.0 - chars,
        chars > self.0 ==> ret.0 == 0""", wrap=imp("Span"), props=["C12", "C01"])
    u.fn("span.rs", S + "length", "ensures self.1 >= self.0 ==> ret == self.1 - self.0",
         wrap=imp("Span"), props=["C12"])
    u.fn("span.rs", S + "stream", """
    requires fits(text@),
    ensures ret.eoi == Span(off_at(text@, text@.len() as int) as usize, off_at(text@, text@.len() as int) as usize),
        ret.it.0.rest() == text@, ret.it.1.at(text@, 0),
""", wrap=imp("Span"), props=["C10", "C12"],
         sigsub=[("traits::sealed::Stream<'_, Self, Self::Tracker>", "Stream<Self, OffsetTracker>")],
         pre="proof { bounds(text@, text@.len() as int); }")
    u.fn("span.rs", L + "at_start", """
    requires self.0.offset + chars <= usize::MAX, self.0.column + chars <= usize::MAX
    ensures ret.0 == self.0, ret.1.offset == self.0.offset + chars,
        ret.1.column == self.0.column + chars, ret.1.line == self.0.line""",
         wrap=imp("LineSpan"), props=["C12", "C11"])
    u.fn("span.rs", L + "at_end", "ensures ret.0 == self.1, ret.1 == self.1",
         wrap=imp("LineSpan"), props=["C12", "C11"])
    u.fn("span.rs", L + "before_start", """
    ensures ret.1 == self.0,
        chars <= self.0.offset ==> ret.0.offset == self.0.offset - chars,
        chars <= self.0.column ==> ret.0.column == self.0.column - chars,
        ret.0.line == self.0.line,
        // the place is right if `chars` plain characters precede
        forall|s: Seq<char>, i: int| self.0 == #[trigger] pos(s, i) && fits(s) && chars <= i <= s.len()
            && (forall|k: int| i - chars <= k < i ==> plain(#[trigger] s[k]))
            ==> ret.0 == pos(s, i - chars)""", wrap=imp("LineSpan"), props=["C12", "C11"],
         pre="""proof {
        assert forall|s: Seq<char>, i: int| self.0 == #[trigger] pos(s, i) && fits(s) && chars <= i <= s.len()
            && (forall|k: int| i - chars <= k < i ==> plain(#[trigger] s[k]))
            implies off_at(s, i - chars) == self.0.offset - chars && line_at(s, i - chars) == self.0.line
              && col_at(s, i - chars) == self.0.column - chars && off_at(s, i - chars) >= 0 && col_at(s, i - chars) >= 0 by {
            back(s, i, chars as int); bounds(s, i); bounds(s, i - chars);
        }
    }""")
    u.fn("span.rs", L + "length",
         "ensures self.1.offset >= self.0.offset ==> ret == self.1.offset - self.0.offset",
         wrap=imp("LineSpan"), props=["C12"])
    u.fn("span.rs", L + "stream", """
    requires fits(text@),
    ensures ret.eoi == LineSpan(pos(text@, text@.len() as int), pos(text@, text@.len() as int)),
        ret.it.0.rest() == text@, ret.it.1.at(text@, 0),
""", wrap=imp("LineSpan"), props=["C11", "C12", "C01"],
         sigsub=[("traits::sealed::Stream<'_, Self, Self::Tracker>", "Stream<Self, LineTracker>")],
         subs=[("let mut line = 0;", "let mut line: usize = 0; let ghost mut i: int = 0;")],
         pre="""proof { bounds(text@, text@.len() as int); col_is_tail(text@, text@.len() as int); last_break_in(text@, text@.len() as int);
        let n = text@.len() as int; let lb = last_break(text@, n);
        assert forall|w: Seq<usize>| w.len() == n - lb
            && (forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] == col_width(text@[lb + k]))
            implies #[trigger] total(w) == tail_width(text@, lb, n) by { tail_is_total(text@, lb, n, w); } }""",
         loops=[{"inv": """
            invariant
                0 <= i <= text@.len(), fits(text@), iter.rest() =~= text@.skip(i),
                line == line_at(text@, i), caret_return == (i > 0 && text@[i - 1] == '\\r'),
                0 <= last_break(text@, i) <= i,
                last_line@ =~= text@.skip(last_break(text@, i)),
            ensures i == text@.len()
            decreases text@.len() - i""",
                 "pre": "proof { bounds(text@, i); bounds(text@, i + 1); last_break_in(text@, i + 1); assert(text@.skip(i).skip(1) =~= text@.skip(i + 1)); i = i + 1; }"}],
         closures=[{"params": "c: char", "ret": "(w: usize)", "ens": "w == col_width(c)"}],
         )
    return u
