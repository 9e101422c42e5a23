// KDL, character by character: what each construct is, independently of the
// combinators that read it.
verus! {
// ---- classes (C06) -----------------------------------------------------------
pub open spec fn is_ws(c: char) -> bool {
    c == '\t' || c == ' ' || c == '\u{a0}' || c == '\u{1680}' || ('\u{2000}' <= c && c <= '\u{200A}')
    || c == '\u{202F}' || c == '\u{205F}' || c == '\u{3000}' || c == '\u{FEFF}'
}
pub open spec fn is_nl(c: char) -> bool {
    c == '\r' || c == '\n' || c == '\u{c}' || c == '\u{85}' || c == '\u{2028}' || c == '\u{2029}'
}
pub open spec fn is_punct(c: char) -> bool {
    c == '\\' || c == '/' || c == '(' || c == ')' || c == '{' || c == '}' || c == '<' || c == '>' || c == ';'
    || c == '[' || c == ']' || c == '=' || c == ',' || c == '"'
}
pub open spec fn is_id(c: char) -> bool { c > ' ' && !is_punct(c) && !is_ws(c) && !is_nl(c) }
pub open spec fn is_dec(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_sign(c: char) -> bool { c == '-' || c == '+' }

// ---- line ends, comments, whitespace (C06, C07) --------------------------------
pub open spec fn newline_s(s: Seq<char>, i: int) -> Out<()> {
    if i >= s.len() || !is_nl(s[i]) { fail() }
    else if s[i] == '\r' && i + 1 < s.len() && s[i + 1] == '\n' { ok((), i + 2) }
    else { ok((), i + 1) }
}
pub open spec fn ws_char_s(s: Seq<char>, i: int) -> Out<()> { if i < s.len() && is_ws(s[i]) { ok((), i + 1) } else { fail() } }
/// the first character from i on that does not satisfy f
pub open spec fn run(f: spec_fn(char) -> bool, s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && f(s[i]) { run(f, s, i + 1) } else { i }
}
pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
/// the end of the line that contains i, with its line break
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if i >= s.len() { i } else if newline_s(s, i) is Ok { newline_s(s, i)->j } else { line_end(s, i + 1) }
}
pub open spec fn comment_s(s: Seq<char>, i: int) -> Out<()> {
    if at(s, i, '/') && at(s, i + 1, '/') { ok((), line_end(s, i + 2)) } else { fail() }
}
pub open spec fn opens(s: Seq<char>, i: int) -> bool { at(s, i, '/') && at(s, i + 1, '*') }
pub open spec fn closes(s: Seq<char>, i: int) -> bool { at(s, i, '*') && at(s, i + 1, '/') }
/// the end of the comment opened before i: after the first `*/` that does not
/// close a comment nested in it
pub open spec fn comment_body(s: Seq<char>, i: int) -> Option<int> decreases s.len() - i {
    if i >= s.len() { None }
    else if closes(s, i) { Some(i + 2) }
    else if opens(s, i) { match comment_body(s, i + 2) {
        Some(j) => if j <= i || j > s.len() { None } else { comment_body(s, j) },
        None => comment_body(s, i + 1),
    } }
    else { comment_body(s, i + 1) }
}
pub open spec fn ml_comment_s(s: Seq<char>, i: int) -> Out<()> {
    if opens(s, i) { match comment_body(s, i + 2) { Some(j) => ok((), j), None => fail() } } else { fail() }
}
pub open spec fn ws_s(s: Seq<char>, i: int) -> Out<()> {
    if i < s.len() && is_ws(s[i]) { ok((), run(ws_class(), s, i)) } else { ml_comment_s(s, i) }
}
}

// ---- lemmas that join repetition to the classes --------------------------------
verus! {
pub proof fn run_ends(f: spec_fn(char) -> bool, s: Seq<char>, i: int)
    requires within(s, i)
    ensures i <= run(f, s, i) <= s.len(),
        run(f, s, i) < s.len() ==> !f(s[run(f, s, i)]),
        forall|k: int| i <= k < run(f, s, i) ==> f(#[trigger] s[k]),
    decreases s.len() - i
{ if i < s.len() && f(s[i]) { run_ends(f, s, i + 1); } }
/// a parser that takes one character of a class at a time takes the whole run
pub proof fn rep_run<O, S>(p: P<O, S>, f: spec_fn(char) -> bool, s: Seq<char>, min: nat, i: int, n: nat)
    requires within(s, i),
        forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == (if k < s.len() && f(s[k]) { ok(d(p, s, k)->v, k + 1) } else { fail() }),
    ensures ({ let e = run(f, s, i); let r = reps(p, s, min, None, i, n);
        &&& i <= e <= s.len()
        &&& n + (e - i) < min ==> r == fail::<Seq<O>>()
        &&& n + (e - i) >= min ==> r == ok(r->v, e) && r->v.len() == e - i && forall|t: int| 0 <= t < e - i ==> #[trigger] r->v[t] == d(p, s, i + t)->v })
    decreases s.len() - i
{
    if i < s.len() && f(s[i]) {
        rep_run(p, f, s, min, i + 1, n + 1);
        let r = reps(p, s, min, None, i, n);
        let q = reps(p, s, min, None, i + 1, n + 1);
        let e = run(f, s, i);
        assert(d(p, s, i) == ok(d(p, s, i)->v, i + 1));
        if n + (e - i) >= min {
            assert(r->v =~= seq![d(p, s, i)->v] + q->v);
            assert forall|t: int| 0 <= t < e - i implies #[trigger] r->v[t] == d(p, s, i + t)->v by {
                if t > 0 { assert(r->v[t] == q->v[t - 1]); assert(q->v[t - 1] == d(p, s, i + 1 + (t - 1))->v); }
            }
        }
    } else { assert(d(p, s, i) == fail::<O>()); }
}
pub open spec fn ws_class() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub broadcast proof fn rep_wsc<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == ws_char_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 1, None, i, 0);
        r == if i < s.len() && is_ws(s[i]) { ok(r->v, run(ws_class(), s, i)) } else { fail() } })
{ rep_run(p, ws_class(), s, 1, i, 0); if i < s.len() && is_ws(s[i]) { run_ends(ws_class(), s, i + 1); } }
}

verus! {
pub open spec fn nl_or_end(s: Seq<char>, i: int) -> Out<()> {
    if newline_s(s, i) is Ok { newline_s(s, i) } else if i == s.len() { ok((), i) } else { fail() }
}
pub broadcast proof fn until_line_end<S>(p: P<(), S>, s: Seq<char>, i: int, k: int)
    requires within(s, i), within(s, k), i <= k, forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == nl_or_end(s, k)
    ensures ({ let r = #[trigger] until(p, s, i, k); r == ok(r->v, line_end(s, k)) })
    decreases s.len() - k
{ if k < s.len() && !(newline_s(s, k) is Ok) { until_line_end(p, s, i, k + 1); } }

pub open spec fn comment_item(s: Seq<char>, i: int) -> Out<()> {
    if ml_comment_s(s, i) is Ok { ml_comment_s(s, i) }
    else if i < s.len() && s[i] != '*' { ok((), i + 1) }
    else if i + 1 < s.len() && s[i + 1] != '/' { ok((), i + 1) }
    else { fail() }
}
pub broadcast proof fn comment_body_end(s: Seq<char>, i: int)
    requires within(s, i)
    ensures match #[trigger] comment_body(s, i) { Some(j) => i < j <= s.len(), None => true }
    decreases s.len() - i
{
    if i < s.len() && !closes(s, i) {
        comment_body_end(s, i + 1);
        if opens(s, i) {
            comment_body_end(s, i + 2);
            match comment_body(s, i + 2) { Some(j) => { comment_body_end(s, j); } None => {} }
        }
    }
}
pub proof fn rep_comment_<S>(p: P<(), S>, s: Seq<char>, i: int, n: nat)
    requires within(s, i), forall|k: int| i <= k <= s.len() ==> #[trigger] d(p, s, k) == comment_item(s, k)
    ensures ({ let r = reps(p, s, 0, None, i, n);
        r == ok(r->v, r->j) && i <= r->j <= s.len() && match comment_body(s, i) { Some(j) => closes(s, r->j) && j == r->j + 2, None => !closes(s, r->j) } })
    decreases s.len() - i
{
    broadcast use comment_body_end;
    assert(d(p, s, i) == comment_item(s, i));
    if comment_item(s, i) is Ok { rep_comment_(p, s, comment_item(s, i)->j, n + 1); }
    else if i < s.len() && !closes(s, i) { assert(comment_body(s, i + 1) is None); }
}
pub broadcast proof fn rep_comment<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| i <= k <= s.len() ==> #[trigger] d(p, s, k) == comment_item(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 0, None, i, 0);
        r == ok(r->v, r->j) && i <= r->j <= s.len() && match comment_body(s, i) { Some(j) => closes(s, r->j) && j == r->j + 2, None => !closes(s, r->j) } })
{ rep_comment_(p, s, i, 0); }
pub broadcast proof fn close_text(s: Seq<char>, i: int)
    requires within(s, i)
    ensures #[trigger] has(s, i, "*/"@) == closes(s, i)
{
    reveal_strlit("*/");
    if closes(s, i) { assert(s.subrange(i, i + 2) =~= "*/"@); }
    else if has(s, i, "*/"@) { assert(s.subrange(i, i + 2)[0] == '*'); assert(s.subrange(i, i + 2)[1] == '/'); }
}
}

// ---- strings (C03) ---------------------------------------------------------------
verus! {
pub open spec fn hashes(s: Seq<char>, i: int, h: int) -> bool { i + h <= s.len() && forall|t: int| 0 <= t < h ==> #[trigger] s[i + t] == '#' }
pub open spec fn raw_close(s: Seq<char>, k: int, h: int) -> bool { at(s, k, '"') && hashes(s, k + 1, h) }
/// the first quote from k on that is followed by h hash signs
pub open spec fn raw_end(s: Seq<char>, k: int, h: int) -> Option<int> decreases s.len() - k {
    if k >= s.len() { None } else if raw_close(s, k, h) { Some(k) } else { raw_end(s, k + 1, h) }
}
pub open spec fn raw_rest(s: Seq<char>, i: int, h: int) -> Out<Seq<char>> {
    match raw_end(s, i, h) { Some(k) => ok(s.subrange(i, k), k + 1 + h), None => fail() }
}
pub open spec fn hash_class() -> spec_fn(char) -> bool { |c: char| c == '#' }
pub open spec fn raw_s(s: Seq<char>, i: int) -> Out<Box<str>> {
    let q = run(hash_class(), s, i + 1);
    if !at(s, i, 'r') || !at(s, q, '"') { fail() }
    else { let t = raw_rest(s, q + 1, q - (i + 1)); with(t, boxed(t->v)) }
}
pub open spec fn esc_of(c: char) -> Option<char> {
    if c == '"' || c == '\\' || c == '/' { Some(c) }
    else if c == 'b' { Some('\u{8}') } else if c == 'f' { Some('\u{c}') }
    else if c == 'n' { Some('\u{a}') } else if c == 'r' { Some('\u{d}') } else if c == 't' { Some('\u{9}') }
    else { None }
}
pub open spec fn is_hex(c: char) -> bool { hexval(c) < 16 }
pub open spec fn hex_class() -> spec_fn(char) -> bool { |c: char| is_hex(c) }
pub open spec fn all_hex(q: Seq<char>) -> bool { q.len() > 0 && forall|k: int| 0 <= k < q.len() ==> is_hex(#[trigger] q[k]) }
pub open spec fn hexnum(q: Seq<char>) -> int decreases q.len() {
    if q.len() == 0 { 0 } else { hexnum(q.drop_last()) * 16 + hexval(q.last()) }
}
/// the character with this code: a Unicode scalar value
pub open spec fn char_of(n: int) -> Option<char> { if 0 <= n < 0xD800 || 0xE000 <= n <= 0x10FFFF { Some(n as char) } else { None } }
/// as many characters of the class as there are, but at most m
pub open spec fn runmax(f: spec_fn(char) -> bool, s: Seq<char>, i: int, m: nat) -> int decreases m {
    if m > 0 && 0 <= i < s.len() && f(s[i]) { runmax(f, s, i + 1, (m - 1) as nat) } else { i }
}
/// `{`, one to six hexadecimal digits that name a character, `}`
pub open spec fn code_s(s: Seq<char>, i: int) -> Out<char> {
    let e = runmax(hex_class(), s, i + 1, 6);
    if !at(s, i, '{') || e == i + 1 || !at(s, e, '}') { fail() }
    else { match char_of(hexnum(s.subrange(i + 1, e))) { Some(c) => ok(c, e + 1), None => fail() } }
}
pub open spec fn stops() -> Seq<char> { seq!['}', '"', '\\'] }
/// what follows a backslash; after an invalid code, which is recorded as an
/// error, reading goes on at the next brace, quote or backslash
pub open spec fn esc_s(s: Seq<char>, i: int) -> Out<char> {
    if i < s.len() && esc_of(s[i]) is Some { ok(esc_of(s[i])->0, i + 1) }
    else if !at(s, i, 'u') { fail() }
    else if code_s(s, i + 1) is Ok { code_s(s, i + 1) }
    else { match find(stops(), s, i + 1) {
        Some(k) => Out::Ok { v: '\0', j: k, clean: false },
        None => if i + 1 < s.len() { Out::Ok { v: '\0', j: s.len() as int, clean: false } } else { fail() },
    } }
}
pub open spec fn str_item(s: Seq<char>, i: int) -> Out<char> {
    if i >= s.len() || s[i] == '"' { fail() } else if s[i] == '\\' { esc_s(s, i + 1) } else { ok(s[i], i + 1) }
}
pub open spec fn str_body(s: Seq<char>, i: int) -> Out<Seq<char>> decreases s.len() - i {
    match str_item(s, i) {
        Out::Ok { v, j, clean } => if j <= i || j > s.len() { Out::Bot } else { match str_body(s, j) {
            Out::Ok { v: t, j: k, clean: e } => Out::Ok { v: seq![v] + t, j: k, clean: clean && e }, x => x } },
        _ => ok(Seq::empty(), i),
    }
}
pub open spec fn escaped_s(s: Seq<char>, i: int) -> Out<Box<str>> {
    let b = str_body(s, i + 1);
    if !at(s, i, '"') || !at(s, b->j, '"') { fail() } else { Out::Ok { v: boxed(b->v), j: b->j + 1, clean: b->Ok_clean } }
}
pub open spec fn string_s(s: Seq<char>, i: int) -> Out<Box<str>> { if raw_s(s, i) is Ok { raw_s(s, i) } else { escaped_s(s, i) } }

pub broadcast proof fn rep_hash<S>(p: P<char, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, s[k] == '#')
    ensures ({ let e = run(hash_class(), s, i); let r = #[trigger] reps(p, s, 0, None, i, 0); r == ok(r->v, e) && r->v.len() == e - i && i <= e <= s.len() })
{ rep_run(p, hash_class(), s, 0, i, 0); }
pub proof fn rep_hashes<S>(p: P<char, S>, s: Seq<char>, i: int, h: nat, n: nat)
    requires within(s, i), n <= h, forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, s[k] == '#')
    ensures ({ let r = reps(p, s, h, Some(h), i, n); r == if hashes(s, i, h - n) { ok(r->v, i + h - n) } else { fail() } })
    decreases h - n
{
    if n < h && i < s.len() && s[i] == '#' {
        rep_hashes(p, s, i + 1, h, n + 1);
        if hashes(s, i + 1, h - n - 1) {
            assert forall|t: int| 0 <= t < h - n implies #[trigger] s[i + t] == '#' by { if t > 0 { assert(s[i + 1 + (t - 1)] == '#'); } }
        }
        if hashes(s, i, h - n) {
            assert forall|t: int| 0 <= t < h - n - 1 implies #[trigger] s[i + 1 + t] == '#' by { assert(s[i + (t + 1)] == '#'); }
        }
    } else if n < h && hashes(s, i, h - n) { assert(s[i + 0] == '#'); }
}
pub broadcast proof fn rep_exact<S>(p: P<char, S>, s: Seq<char>, i: int, h: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, s[k] == '#')
    ensures ({ let r = #[trigger] reps(p, s, h, Some(h), i, 0); r == if hashes(s, i, h as int) { ok(r->v, i + h) } else { fail() } })
{ rep_hashes(p, s, i, h, 0); }
pub open spec fn close_out(s: Seq<char>, k: int, h: int) -> Out<()> { if raw_close(s, k, h) { ok((), k + 1 + h) } else { fail() } }
pub proof fn until_raw<S>(p: P<(), S>, s: Seq<char>, i: int, k: int, h: int)
    requires within(s, i), within(s, k), i <= k, forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == close_out(s, k, h)
    ensures until(p, s, i, k) == match raw_end(s, k, h) { Some(e) => ok((s.subrange(i, e), ()), e + 1 + h), None => fail() }
    decreases s.len() - k
{ assert(d(p, s, k) == close_out(s, k, h)); if k < s.len() { if !raw_close(s, k, h) { until_raw(p, s, i, k + 1, h); } } }
pub proof fn rep_hexes<S>(p: P<char, S>, s: Seq<char>, i: int, n: nat)
    requires within(s, i), n <= 6, forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, is_hex(s[k]))
    ensures ({ let e = runmax(hex_class(), s, i, (6 - n) as nat); let r = reps(p, s, 1, Some(6), i, n);
        i <= e <= s.len() && e <= i + 6 - n && (forall|k: int| i <= k < e ==> is_hex(#[trigger] s[k])) && r == if e > i || n > 0 { ok(s.subrange(i, e), e) } else { fail() } })
    decreases 6 - n
{
    if n < 6 && i < s.len() && is_hex(s[i]) {
        rep_hexes(p, s, i + 1, n + 1);
        let e = runmax(hex_class(), s, i, (6 - n) as nat);
        assert(s.subrange(i, e) =~= seq![s[i]] + s.subrange(i + 1, e));
    } else { assert(s.subrange(i, i) =~= Seq::empty()); }
}
pub broadcast proof fn rep_hex<S>(p: P<char, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, is_hex(s[k]))
    ensures ({ let e = runmax(hex_class(), s, i, 6); let r = #[trigger] reps(p, s, 1, Some(6), i, 0);
        i <= e <= s.len() && e <= i + 6 && (forall|k: int| 0 <= k < e - i ==> is_hex(#[trigger] s.subrange(i, e)[k])) && r == if e > i { ok(s.subrange(i, e), e) } else { fail() } })
{ rep_hexes(p, s, i, 0); }
pub broadcast proof fn find_in(c: Seq<char>, s: Seq<char>, k: int)
    requires within(s, k)
    ensures match #[trigger] find(c, s, k) { Some(e) => k <= e < s.len(), None => true }
    decreases s.len() - k
{ if k < s.len() { find_in(c, s, k + 1); } }
pub proof fn str_step(s: Seq<char>, i: int)
    requires within(s, i)
    ensures !(str_item(s, i) is Bot), str_item(s, i) is Ok ==> i < str_item(s, i)->j <= s.len()
{
    broadcast use find_in;
    if i + 2 < s.len() { runmax_ends(s, i + 3, 6); }
}
pub proof fn runmax_ends(s: Seq<char>, i: int, m: nat)
    requires within(s, i)
    ensures i <= runmax(hex_class(), s, i, m) <= s.len()
    decreases m
{ if m > 0 && i < s.len() && is_hex(s[i]) { runmax_ends(s, i + 1, (m - 1) as nat); } }
pub proof fn rep_str_<S>(p: P<char, S>, s: Seq<char>, i: int, n: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> eqv(#[trigger] d(p, s, k), str_item(s, k))
    ensures ({ let r = reps(p, s, 0, None, i, n); r == str_body(s, i) && r is Ok && i <= r->j <= s.len() })
    decreases s.len() - i
{
    assert(eqv(d(p, s, i), str_item(s, i)));
    str_step(s, i);
    if str_item(s, i) is Ok { rep_str_(p, s, str_item(s, i)->j, n + 1); }
}
pub broadcast proof fn rep_str<S>(p: P<char, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> eqv(#[trigger] d(p, s, k), str_item(s, k))
    ensures ({ let r = #[trigger] reps(p, s, 0, None, i, 0); r == str_body(s, i) && r is Ok && i <= r->j <= s.len() })
{ rep_str_(p, s, i, 0); }
#[verifier::external_body]
pub fn u32_from_str_radix<E>(t: &String, radix: u32) -> (r: Result<u32, E>)
    requires radix == 16
    ensures all_hex(t@) ==> if hexnum(t@) <= u32::MAX { r is Ok && r->Ok_0 == hexnum(t@) } else { r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn char_try_from<E>(n: u32) -> (r: Result<char, E>)
    ensures match char_of(n as int) { Some(c) => r == Ok::<char, E>(c), None => r is Err }
{ unimplemented!() }
}

verus! {
/// only which characters are looked for matters
pub broadcast proof fn find_same(c: Seq<char>, s: Seq<char>, k: int)
    requires within(s, k), c.len() == 3, c[0] == '}', c[1] == '"', c[2] == '\\'
    ensures #[trigger] find(c, s, k) == find(stops(), s, k)
{ assert(c =~= stops()); }
}

verus! {
// ---- identifiers and keywords (C06) -------------------------------------------
pub open spec fn id_class() -> spec_fn(char) -> bool { |c: char| is_id(c) }
pub open spec fn is_keyword(q: Seq<char>) -> bool { q == "true"@ || q == "false"@ || q == "null"@ }
/// the end of a bare identifier: the longest run of identifier characters; a
/// sign before a digit stands alone
pub open spec fn bare_end(s: Seq<char>, i: int) -> int {
    if is_sign(s[i]) && i + 1 < s.len() && is_dec(s[i + 1]) { i + 1 } else { run(id_class(), s, i) }
}
pub open spec fn bare_s(s: Seq<char>, i: int) -> Out<Box<str>> {
    if i >= s.len() || !is_id(s[i]) || is_dec(s[i]) { fail() }
    else { let q = s.subrange(i, bare_end(s, i)); if is_keyword(q) { fail() } else { ok(boxed(q), bare_end(s, i)) } }
}
pub open spec fn keyword_s(s: Seq<char>, i: int) -> Out<Literal> {
    if has(s, i, "null"@) { ok(Literal::Null, i + 4) }
    else if has(s, i, "true"@) { ok(Literal::Bool(true), i + 4) }
    else if has(s, i, "false"@) { ok(Literal::Bool(false), i + 5) }
    else { fail() }
}
pub proof fn rep_chars<S>(p: P<char, S>, f: spec_fn(char) -> bool, s: Seq<char>, min: nat, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, f(s[k]))
    ensures ({ let e = run(f, s, i); let r = reps(p, s, min, None, i, 0);
        i <= e <= s.len() && r == if e - i < min { fail() } else { ok(s.subrange(i, e), e) } })
{
    rep_run(p, f, s, min, i, 0);
    let e = run(f, s, i); let r = reps(p, s, min, None, i, 0);
    run_ends(f, s, i);
    if e - i >= min {
        assert forall|t: int| 0 <= t < e - i implies r->v[t] == s[i + t] by { assert(r->v[t] == d(p, s, i + t)->v); }
        assert(r->v =~= s.subrange(i, e));
    }
}
pub broadcast proof fn rep_id<S>(p: P<char, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, is_id(s[k]))
    ensures ({ let e = run(id_class(), s, i); i <= e <= s.len() && #[trigger] reps(p, s, 0, None, i, 0) == ok(s.subrange(i, e), e) })
{ rep_chars(p, id_class(), s, 0, i); }
pub broadcast proof fn rep_sign<S>(p: P<char, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, is_sign(s[k]))
    ensures #[trigger] reps(p, s, 1, Some(1), i, 0) == if i < s.len() && is_sign(s[i]) { ok(seq![s[i]], i + 1) } else { fail() }
{ assert(d(p, s, i) == one(s, i, is_sign(s[i]))); reveal_with_fuel(reps, 3); assert(seq![s[i]] + Seq::empty() =~= seq![s[i]]); }
pub broadcast proof fn join1(s: Seq<char>, i: int, j: int, k: int)
    requires 0 <= i < k <= s.len(), j == i + 1
    ensures #[trigger] cat(lone(s[i]), s.subrange(j, k)) == s.subrange(i, k)
{ reveal(cat); reveal(lone); assert(seq![s[i]] + s.subrange(i + 1, k) =~= s.subrange(i, k)); }

// ---- numbers (C04) ---------------------------------------------------------------
pub open spec fn digit_class(radix: int) -> spec_fn(char) -> bool { |c: char| c == '_' || hexval(c) < radix }
pub open spec fn dig(s: Seq<char>, i: int, radix: int) -> bool { 0 <= i < s.len() && hexval(s[i]) < radix }
pub open spec fn digits_end(s: Seq<char>, i: int, radix: int) -> int { run(digit_class(radix), s, i) }
pub open spec fn after_sign(s: Seq<char>, i: int) -> int { if 0 <= i < s.len() && is_sign(s[i]) { i + 1 } else { i } }
pub open spec fn marks(q: Seq<char>) -> bool { exists|k: int| 0 <= k < q.len() && is_mark(#[trigger] q[k]) }
pub open spec fn is_mark(c: char) -> bool { c == '.' || c == 'e' || c == 'E' }
pub open spec fn frac_end(s: Seq<char>, b: int) -> int { if at(s, b, '.') && dig(s, b + 1, 10) { digits_end(s, b + 2, 10) } else { b } }
pub open spec fn exp_end(s: Seq<char>, c: int) -> int {
    let g = after_sign(s, c + 1);
    if (at(s, c, 'e') || at(s, c, 'E')) && dig(s, g, 10) { digits_end(s, g + 1, 10) } else { c }
}
pub open spec fn without_(q: Seq<char>) -> Seq<char> { q.filter(|c: char| c != '_') }
pub open spec fn dec_lit(q: Seq<char>) -> Literal {
    if marks(q) { Literal::Decimal(Decimal(boxed(without_(q)))) } else { Literal::Int(Integer(Radix::Dec, boxed(without_(q)))) }
}
/// an optional sign, digits, optionally a fraction, optionally an exponent
pub open spec fn decimal_s(s: Seq<char>, i: int) -> Out<Literal> {
    let a = after_sign(s, i);
    if !dig(s, a, 10) { fail() }
    else {
        let b = digits_end(s, a + 1, 10);
        let e = exp_end(s, frac_end(s, b));
        ok(dec_lit(s.subrange(i, e)), e)
    }
}
pub open spec fn opt1(b: bool, c: char) -> Seq<char> { if b { lone(c) } else { none() } }
/// the characters of a decimal number, piece by piece
pub broadcast proof fn decimal_text(s: Seq<char>, i: int)
    requires within(s, i)
    ensures #[trigger] decimal_s(s, i) is Ok ==> ({
        let a = after_sign(s, i); let b = digits_end(s, a + 1, 10); let f = frac_end(s, b); let e = exp_end(s, f); let g = after_sign(s, f + 1);
        &&& i <= a < b <= f <= e <= s.len()
        &&& s.subrange(i, e) == cat(cat(cat(cat(opt1(a > i, s[i]), lone(s[a])), s.subrange(a + 1, b)),
            (if f > b { cat(cat(lone(s[b]), lone(s[b + 1])), s.subrange(b + 2, f)) } else { none() })),
            (if e > f { cat(cat(cat(lone(s[f]), opt1(g > f + 1, s[f + 1])), lone(s[g])), s.subrange(g + 1, e)) } else { none() }))
    })
{
    broadcast use run_in; reveal(cat); reveal(lone); reveal(none);
    if decimal_s(s, i) is Ok {
        let a = after_sign(s, i); let b = digits_end(s, a + 1, 10); let f = frac_end(s, b); let e = exp_end(s, f); let g = after_sign(s, f + 1);
        assert(s.subrange(i, b) =~= opt1(a > i, s[i]) + seq![s[a]] + s.subrange(a + 1, b));
        if f > b { assert(s.subrange(b, f) =~= seq![s[b]] + seq![s[b + 1]] + s.subrange(b + 2, f)); } else { assert(s.subrange(b, f) =~= Seq::empty()); }
        if e > f { assert(s.subrange(f, e) =~= seq![s[f]] + opt1(g > f + 1, s[f + 1]) + seq![s[g]] + s.subrange(g + 1, e)); } else { assert(s.subrange(f, e) =~= Seq::empty()); }
        assert(s.subrange(i, f) =~= s.subrange(i, b) + s.subrange(b, f));
        assert(s.subrange(i, e) =~= s.subrange(i, f) + s.subrange(f, e));
    }
}
pub open spec fn radix_of(c: char) -> Option<(Radix, int)> {
    if c == 'b' { Some((Radix::Bin, 2)) } else if c == 'o' { Some((Radix::Oct, 8)) } else if c == 'x' { Some((Radix::Hex, 16)) } else { None }
}
/// an optional sign, 0b, 0o or 0x, and digits of that radix
pub open spec fn radix_s(s: Seq<char>, i: int) -> Out<Literal> {
    let a = after_sign(s, i);
    if !at(s, a, '0') || a + 1 >= s.len() || radix_of(s[a + 1]) is None { fail() }
    else {
        let r = radix_of(s[a + 1])->0;
        if !dig(s, a + 2, r.1) { fail() }
        else { let e = digits_end(s, a + 3, r.1); ok(Literal::Int(Integer(r.0, boxed(cat(opt1(a > i, s[i]), without_(s.subrange(a + 2, e)))))), e) }
    }
}
pub open spec fn number_s(s: Seq<char>, i: int) -> Out<Literal> { if radix_s(s, i) is Ok { radix_s(s, i) } else { decimal_s(s, i) } }
pub broadcast proof fn run_in(f: spec_fn(char) -> bool, s: Seq<char>, i: int)
    requires within(s, i)
    ensures i <= #[trigger] run(f, s, i) <= s.len()
{ run_ends(f, s, i); }
/// one character of a sequence is the sequence from it to the next
pub broadcast proof fn single(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures s.subrange(i, i + 1) == seq![#[trigger] s[i]]
{ assert(s.subrange(i, i + 1) =~= seq![s[i]]); }

pub open spec fn literal_s(s: Seq<char>, i: int) -> Out<Literal> {
    if string_s(s, i) is Ok { with(string_s(s, i), Literal::String(string_s(s, i)->v)) }
    else if keyword_s(s, i) is Ok { keyword_s(s, i) }
    else { number_s(s, i) }
}
/// a name: a string or a bare identifier, not a number
pub open spec fn ident_s(s: Seq<char>, i: int) -> Out<Box<str>> {
    if number_s(s, i) is Ok { fail() } else if string_s(s, i) is Ok { string_s(s, i) } else { bare_s(s, i) }
}
/// `TypeName::from_string` (see the dec unit)
pub uninterp spec fn named(b: Box<str>) -> TypeName;
#[verifier::external_body]
pub fn type_name_from_string(b: Box<str>) -> (r: TypeName) ensures r == named(b) { unimplemented!() }
pub open spec fn type_name_s(s: Seq<char>, i: int) -> Out<TypeName> {
    let n = ident_s(s, i + 1);
    if !at(s, i, '(') || !(n is Ok) { fail() }
    else if !at(s, n->j, ')') { Out::Fail { clean: n->Ok_clean } }
    else { Out::Ok { v: named(n->v), j: n->j + 1, clean: n->Ok_clean } }
}
pub fn mk_ok<T, E>(v: T) -> (r: Result<T, E>) ensures r == Ok::<T, E>(v) { Ok(v) }
pub fn mk_err<T, E>(v: E) -> (r: Result<T, E>) ensures r == Err::<T, E>(v) { Err(v) }
pub fn mk_string(v: Box<str>) -> (r: Literal) ensures r == Literal::String(v) { Literal::String(v) }
pub fn with_error<T, E, S>(r: Result<T, E>) -> (x: Result<T, Error<S>>) ensures match r { Ok(v) => x == Ok::<T, Error<S>>(v), Err(_) => x is Err }
{ match r { Ok(v) => Ok(v), Err(_) => Err(error_value()) } }

// ---- between items and between nodes (C07) -------------------------------------------
pub open spec fn or_s(a: Out<()>, b: Out<()>) -> Out<()> { if a is Ok { a } else { b } }
pub proof fn ws_step(s: Seq<char>, i: int)
    requires within(s, i)
    ensures ws_s(s, i) == fail::<()>() || i < ws_s(s, i)->j <= s.len() && ws_s(s, i) == ok((), ws_s(s, i)->j)
{ broadcast use {run_in, comment_body_end}; if i < s.len() && is_ws(s[i]) { assert(run(ws_class(), s, i) == run(ws_class(), s, i + 1)); } }

/// the end of a sequence of such items
pub open spec fn ws_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if within(s, i) && ws_s(s, i) is Ok && i < ws_s(s, i)->j <= s.len() { ws_end(s, ws_s(s, i)->j) } else { i }
}
pub proof fn rep_ws_<S>(p: P<(), S>, s: Seq<char>, min: nat, i: int, n: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == ws_s(s, k), n >= min || ws_s(s, i) is Ok && n + 1 == min
    ensures ({ let r = reps(p, s, min, None, i, n); r == ok(r->v, ws_end(s, i)) && i <= ws_end(s, i) <= s.len() })
    decreases s.len() - i
{
    assert(d(p, s, i) == ws_s(s, i));
    ws_step(s, i);
    if ws_s(s, i) is Ok { rep_ws_(p, s, min, ws_s(s, i)->j, n + 1); }
}
pub broadcast proof fn rep_ws<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == ws_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 0, None, i, 0); r == ok(r->v, ws_end(s, i)) && i <= ws_end(s, i) <= s.len() })
{ rep_ws_(p, s, 0, i, 0); }
pub broadcast proof fn rep1_ws<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == ws_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 1, None, i, 0); i <= ws_end(s, i) <= s.len() && if ws_s(s, i) is Ok { r == ok(r->v, ws_end(s, i)) } else { r == fail::<Seq<()>>() } })
{ rep_ws_(p, s, 0, i, 0); if ws_s(s, i) is Ok { rep_ws_(p, s, 1, i, 0); } }

/// an escaped line break: a backslash, whitespace, and a line comment or line end
pub open spec fn esc_line_s(s: Seq<char>, i: int) -> Out<()> {
    let k = ws_end(s, i + 1);
    if at(s, i, '\\') { or_s(comment_s(s, k), newline_s(s, k)) } else { fail() }
}
pub open spec fn node_space_s(s: Seq<char>, i: int) -> Out<()> { or_s(ws_s(s, i), esc_line_s(s, i)) }
pub open spec fn line_space_s(s: Seq<char>, i: int) -> Out<()> { or_s(newline_s(s, i), or_s(ws_s(s, i), comment_s(s, i))) }
pub open spec fn terminator_s(s: Seq<char>, i: int) -> Out<()> {
    or_s(newline_s(s, i), or_s(comment_s(s, i), if at(s, i, ';') { ok((), i + 1) } else if i == s.len() { ok((), i) } else { fail() }))
}
pub broadcast proof fn line_end_in(s: Seq<char>, i: int)
    requires within(s, i)
    ensures i <= #[trigger] line_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && !(newline_s(s, i) is Ok) { line_end_in(s, i + 1); } }
pub broadcast proof fn ws_end_in(s: Seq<char>, i: int)
    requires within(s, i)
    ensures i <= #[trigger] ws_end(s, i) <= s.len()
    decreases s.len() - i
{ if ws_s(s, i) is Ok && i < ws_s(s, i)->j <= s.len() { ws_end_in(s, ws_s(s, i)->j); } }
pub proof fn node_space_step(s: Seq<char>, i: int)
    requires within(s, i)
    ensures node_space_s(s, i) == fail::<()>() || i < node_space_s(s, i)->j <= s.len() && node_space_s(s, i) == ok((), node_space_s(s, i)->j)
{ broadcast use {line_end_in, ws_end_in}; ws_step(s, i); }
pub proof fn line_space_step(s: Seq<char>, i: int)
    requires within(s, i)
    ensures line_space_s(s, i) == fail::<()>() || i < line_space_s(s, i)->j <= s.len() && line_space_s(s, i) == ok((), line_space_s(s, i)->j)
{ broadcast use {line_end_in, ws_end_in}; ws_step(s, i); }

/// the end of a sequence of such items
pub open spec fn node_space_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if within(s, i) && node_space_s(s, i) is Ok && i < node_space_s(s, i)->j <= s.len() { node_space_end(s, node_space_s(s, i)->j) } else { i }
}
pub proof fn rep_node_space_<S>(p: P<(), S>, s: Seq<char>, min: nat, i: int, n: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == node_space_s(s, k), n >= min || node_space_s(s, i) is Ok && n + 1 == min
    ensures ({ let r = reps(p, s, min, None, i, n); r == ok(r->v, node_space_end(s, i)) && i <= node_space_end(s, i) <= s.len() })
    decreases s.len() - i
{
    assert(d(p, s, i) == node_space_s(s, i));
    node_space_step(s, i);
    if node_space_s(s, i) is Ok { rep_node_space_(p, s, min, node_space_s(s, i)->j, n + 1); }
}
pub broadcast proof fn rep_node_space<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == node_space_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 0, None, i, 0); r == ok(r->v, node_space_end(s, i)) && i <= node_space_end(s, i) <= s.len() })
{ rep_node_space_(p, s, 0, i, 0); }
pub broadcast proof fn rep1_node_space<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == node_space_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 1, None, i, 0); i <= node_space_end(s, i) <= s.len() && if node_space_end(s, i) > i { r == ok(r->v, node_space_end(s, i)) } else { r == fail::<Seq<()>>() } })
{ rep_node_space_(p, s, 0, i, 0); node_space_step(s, i); if node_space_s(s, i) is Ok { rep_node_space_(p, s, 1, i, 0); rep_node_space_(p, s, 0, node_space_s(s, i)->j, 0); } }


/// the end of a sequence of such items
pub open spec fn line_space_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if within(s, i) && line_space_s(s, i) is Ok && i < line_space_s(s, i)->j <= s.len() { line_space_end(s, line_space_s(s, i)->j) } else { i }
}
pub proof fn rep_line_space_<S>(p: P<(), S>, s: Seq<char>, min: nat, i: int, n: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == line_space_s(s, k), n >= min || line_space_s(s, i) is Ok && n + 1 == min
    ensures ({ let r = reps(p, s, min, None, i, n); r == ok(r->v, line_space_end(s, i)) && i <= line_space_end(s, i) <= s.len() })
    decreases s.len() - i
{
    assert(d(p, s, i) == line_space_s(s, i));
    line_space_step(s, i);
    if line_space_s(s, i) is Ok { rep_line_space_(p, s, min, line_space_s(s, i)->j, n + 1); }
}
pub broadcast proof fn rep_line_space<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == line_space_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 0, None, i, 0); r == ok(r->v, line_space_end(s, i)) && i <= line_space_end(s, i) <= s.len() })
{ rep_line_space_(p, s, 0, i, 0); }
pub broadcast proof fn rep1_line_space<S>(p: P<(), S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == line_space_s(s, k)
    ensures ({ let r = #[trigger] reps(p, s, 1, None, i, 0); i <= line_space_end(s, i) <= s.len() && if line_space_end(s, i) > i { r == ok(r->v, line_space_end(s, i)) } else { r == fail::<Seq<()>>() } })
{ rep_line_space_(p, s, 0, i, 0); line_space_step(s, i); if line_space_s(s, i) is Ok { rep_line_space_(p, s, 1, i, 0); rep_line_space_(p, s, 0, line_space_s(s, i)->j, 0); } }

}
