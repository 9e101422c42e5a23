// chumsky 0.9.3 as a library of contracts (assumed: external_body).
//
// A parser is known by what it makes of the text s from character i on:
// d(p, s, i).  Bot stands for anything that must not happen: divergence and
// chumsky's own panic on a repetition that consumes nothing.
verus! {
pub enum Out<O> {
    Bot,
    /// a hard error; clean: no other error was recorded on the way
    Fail { clean: bool },
    /// the value, the position after it; clean: no error was recorded
    Ok { v: O, j: int, clean: bool },
}
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(S)]
pub struct P<O, S> { x: std::marker::PhantomData<(O, S)> }
impl<O, S> Clone for P<O, S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<O, S> Copy for P<O, S> {}

pub uninterp spec fn d<O, S>(p: P<O, S>, s: Seq<char>, i: int) -> Out<O>;
/// the span of the characters i..j
pub uninterp spec fn spn<S>(s: Seq<char>, i: int, j: int) -> S;

pub open spec fn within(s: Seq<char>, i: int) -> bool { 0 <= i <= s.len() }
/// the stream only moves forwards, up to the end
pub broadcast axiom fn forwards<O, S>(p: P<O, S>, s: Seq<char>, i: int)
    requires within(s, i)
    ensures #[trigger] d(p, s, i) is Ok ==> i <= d(p, s, i)->j <= s.len();

pub open spec fn ok<O>(v: O, j: int) -> Out<O> { Out::Ok { v, j, clean: true } }
pub open spec fn fail<O>() -> Out<O> { Out::Fail { clean: true } }
/// the same outcome, whatever else was recorded before a failure
pub open spec fn eqv<O>(a: Out<O>, b: Out<O>) -> bool {
    match (a, b) { (Out::Fail { .. }, Out::Fail { .. }) => true, _ => a == b && !(a is Bot) }
}
pub open spec fn seq_of<O>(o: Out<Vec<O>>) -> Out<Seq<O>> {
    match o { Out::Bot => Out::Bot, Out::Fail { clean } => Out::Fail { clean }, Out::Ok { v, j, clean } => Out::Ok { v: v@, j, clean } }
}
/// how two outcomes in sequence combine
pub open spec fn seq_out<A, B, C>(a: Out<A>, b: Out<B>, v: C) -> Out<C> {
    match a {
        Out::Bot => Out::Bot, Out::Fail { clean } => Out::Fail { clean },
        Out::Ok { clean: c, .. } => match b {
            Out::Bot => Out::Bot, Out::Fail { clean: e } => Out::Fail { clean: c && e },
            Out::Ok { j, clean: e, .. } => Out::Ok { v, j, clean: c && e },
        },
    }
}
pub open spec fn with<A, C>(a: Out<A>, v: C) -> Out<C> {
    match a { Out::Bot => Out::Bot, Out::Fail { clean } => Out::Fail { clean }, Out::Ok { j, clean, .. } => Out::Ok { v, j, clean } }
}
/// r is a choice between a and, when a is not clean, b
pub open spec fn or_out<O>(a: Out<O>, b: Out<O>, r: Out<O>) -> bool {
    if a is Bot { r is Bot }
    else if a is Ok && a->Ok_clean { r == a }
    else if b is Bot { r is Bot }
    else if b is Ok && b->Ok_clean { r == b }
    else if a is Ok && b is Fail { r == a }
    else if a is Fail && b is Ok { r == b }
    else { r == a || r == b }
}

// ---- repetition ------------------------------------------------------------
/// the items p yields one after the other from i on, n of them read before
pub open spec fn reps<O, S>(p: P<O, S>, s: Seq<char>, min: nat, max: Option<nat>, i: int, n: nat) -> Out<Seq<O>>
    decreases s.len() - i
{
    if max is Some && n >= max->0 { ok(Seq::empty(), i) }
    else { match d(p, s, i) {
        Out::Bot => Out::Bot,
        Out::Fail { clean } => if n < min { Out::Fail { clean } } else { ok(Seq::empty(), i) },
        Out::Ok { v, j, clean } =>
            if j <= i || j > s.len() { Out::Bot }
            else { let t = reps(p, s, min, max, j, n + 1); match t {
                Out::Bot => Out::Bot,
                Out::Fail { clean: e } => Out::Fail { clean: clean && e },
                Out::Ok { v: t, j: k, clean: e } => Out::Ok { v: seq![v] + t, j: k, clean: clean && e },
            } },
    } }
}
/// the characters from i to the first position from k on at which p succeeds
pub open spec fn until<O, S>(p: P<O, S>, s: Seq<char>, i: int, k: int) -> Out<(Seq<char>, O)>
    decreases s.len() - k
{
    match d(p, s, k) {
        Out::Bot => Out::Bot,
        Out::Ok { v, j, clean } => Out::Ok { v: (s.subrange(i, k), v), j, clean },
        Out::Fail { clean } => if k < s.len() { until(p, s, i, k + 1) } else { Out::Fail { clean } },
    }
}
/// items separated by dl, from i, which follows an item
pub open spec fn seps<O, U, S>(p: P<O, S>, dl: P<U, S>, trailing: bool, s: Seq<char>, i: int) -> Out<Seq<O>>
    decreases s.len() - i
{
    match d(dl, s, i) {
        Out::Bot => Out::Bot,
        Out::Fail { clean } => Out::Ok { v: Seq::empty(), j: i, clean },
        Out::Ok { j: k, clean: c, .. } => match d(p, s, k) {
            Out::Bot => Out::Bot,
            Out::Fail { clean } => Out::Ok { v: Seq::empty(), j: if trailing { k } else { i }, clean: c && clean },
            Out::Ok { v, j, clean } =>
                if j <= i || j > s.len() { Out::Bot }
                else { let t = seps(p, dl, trailing, s, j); seq_out(Out::Ok { v, j, clean: c && clean }, t, seq![v] + t->v) },
        },
    }
}
/// all items from i on
pub open spec fn sep_all<O, U, S>(p: P<O, S>, dl: P<U, S>, leading: bool, trailing: bool, s: Seq<char>, i: int) -> Out<Seq<O>> {
    let k = if leading && d(dl, s, i) is Ok { d(dl, s, i)->j } else { i };
    if leading && d(dl, s, i) is Bot { Out::Bot } else { match d(p, s, k) {
        Out::Bot => Out::Bot,
        Out::Fail { clean } => Out::Ok { v: Seq::empty(), j: k, clean },
        Out::Ok { v, j, clean } => { let t = seps(p, dl, trailing, s, j); seq_out(d(p, s, k), t, seq![v] + t->v) },
    } }
}
pub open spec fn find(c: Seq<char>, s: Seq<char>, k: int) -> Option<int> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if c.contains(s[k]) { Some(k) } else { find(c, s, k + 1) }
}

// ---- primitives ------------------------------------------------------------
pub open spec fn one(s: Seq<char>, i: int, b: bool) -> Out<char> { if i < s.len() && b { ok(s[i], i + 1) } else { fail() } }
#[verifier::external_body]
pub fn just<S>(c: char) -> (r: P<char, S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == one(s, i, s[i] == c)
{ unimplemented!() }
#[verifier::external_body]
pub fn none_of<S>(c: char) -> (r: P<char, S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == one(s, i, s[i] != c)
{ unimplemented!() }
pub open spec fn has(s: Seq<char>, i: int, t: Seq<char>) -> bool { i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
#[verifier::external_body]
pub fn just_str<'a, S>(t: &'a str) -> (r: P<&'a str, S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == if has(s, i, t@) { ok(t, i + t@.len()) } else { fail() }
{ unimplemented!() }
#[verifier::external_body]
pub fn end<S>() -> (r: P<(), S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == if i == s.len() { ok((), i) } else { fail() }
{ unimplemented!() }
#[verifier::external_body]
pub fn filter<S, F: Fn(&char) -> bool>(f: F) -> (r: P<char, S>)
    requires forall|c: &char| f.requires((c,))
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> if i < s.len() {
            exists|b: bool| #[trigger] f.ensures((&s[i],), b) && d(r, s, i) == one(s, i, b) } else { d(r, s, i) == fail::<char>() }
{ unimplemented!() }
#[verifier::external_body]
pub fn filter_map<O, S, F: Fn(S, char) -> Result<O, Error<S>>>(f: F) -> (r: P<O, S>)
    requires forall|x: S, c: char| f.requires((x, c))
    ensures
        forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> if i < s.len() {
            exists|b: Result<O, Error<S>>| #[trigger] f.ensures((spn::<S>(s, i, i + 1), s[i]), b)
                && d(r, s, i) == match b { Ok(v) => ok(v, i + 1), Err(_) => fail() }
        } else { d(r, s, i) == fail::<O>() }
{ unimplemented!() }
#[verifier::external_body]
pub fn take_until<O, S>(p: P<O, S>) -> (r: P<(Vec<char>, O), S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> {
        let u = until(p, s, i, i);
        with(d(r, s, i), (d(r, s, i)->v.0@, d(r, s, i)->v.1)) == u }
{ unimplemented!() }

pub trait Choice<O, S>: Sized { spec fn first(self, s: Seq<char>, i: int) -> Out<O>; }
pub open spec fn first2<O>(a: Out<O>, b: Out<O>) -> Out<O> { if a is Fail { if b is Fail { fail() } else { b } } else { a } }
impl<O, S> Choice<O, S> for (P<O, S>, P<O, S>) {
    open spec fn first(self, s: Seq<char>, i: int) -> Out<O> { first2(d(self.0, s, i), d(self.1, s, i)) }
}
impl<O, S> Choice<O, S> for (P<O, S>, P<O, S>, P<O, S>) {
    open spec fn first(self, s: Seq<char>, i: int) -> Out<O> { first2(d(self.0, s, i), first2(d(self.1, s, i), d(self.2, s, i))) }
}
impl<O, S> Choice<O, S> for (P<O, S>, P<O, S>, P<O, S>, P<O, S>) {
    open spec fn first(self, s: Seq<char>, i: int) -> Out<O> { first2(d(self.0, s, i), first2(d(self.1, s, i), first2(d(self.2, s, i), d(self.3, s, i)))) }
}
#[verifier::external_body]
pub fn choice<O, S, T: Choice<O, S>>(t: T) -> (r: P<O, S>)
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == t.first(s, i)
{ unimplemented!() }

/// `recursive`: q is what the parser is to do.  Requires that the body does
/// it whenever its argument does it at all later positions, whatever the
/// argument does at earlier ones (there it may diverge), so the recursion
/// ends.
#[verifier::external_body]
pub fn recursive<O, S, F: FnOnce(P<O, S>) -> P<O, S>>(Ghost(q): Ghost<spec_fn(Seq<char>, int, Out<O>) -> bool>, f: F) -> (r: P<O, S>)
    requires
        forall|p: P<O, S>| f.requires((p,)),
        forall|p: P<O, S>, b: P<O, S>, s: Seq<char>, i: int| #[trigger] f.ensures((p,), b) && within(s, i)
            && (forall|k: int| i < k <= s.len() ==> q(s, k, #[trigger] d(p, s, k))) ==> q(s, i, #[trigger] d(b, s, i)),
    ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> q(s, i, d(r, s, i))
{ unimplemented!() }

// ---- sequences of characters ------------------------------------------------
pub trait Chain: Sized { spec fn chs(self) -> Seq<char>; }
#[verifier::opaque]
pub open spec fn cat(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
#[verifier::opaque]
pub open spec fn lone(c: char) -> Seq<char> { seq![c] }
#[verifier::opaque]
pub open spec fn none() -> Seq<char> { Seq::empty() }
impl Chain for char { open spec fn chs(self) -> Seq<char> { lone(self) } }
impl Chain for Vec<char> { open spec fn chs(self) -> Seq<char> { self@ } }
impl Chain for Option<char> { open spec fn chs(self) -> Seq<char> { match self { Some(c) => lone(c), None => none() } } }
pub trait Flatten: Sized { spec fn flat(self) -> Seq<char>; }
impl Flatten for Option<Vec<char>> { open spec fn flat(self) -> Seq<char> { match self { Some(v) => v@, None => none() } } }

#[verifier::reject_recursive_types(S)]
pub struct Emitter<S> { pub x: Vec<Error<S>> }
impl<S> Emitter<S> {
    pub fn emit(&mut self, e: Error<S>) ensures final(self).x@.len() > 0 { self.x.push(e); }
}

// ---- combinators -------------------------------------------------------------
impl<O, S> P<O, S> {
    /// `parse(S::stream(text))`: the result at the start of the text; it is
    /// Ok only if nothing was reported on the way.  Requires that the parser
    /// terminates on the text.
    #[verifier::external_body]
    pub fn parse(self, text: &str) -> (r: Result<O, Error<S>>)
        requires !(d(self, text@, 0) is Bot),
        ensures match d(self, text@, 0) { Out::Ok { v, clean: true, .. } => r == Ok::<O, Error<S>>(v), _ => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or(self, b: P<O, S>) -> (r: P<O, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> or_out(d(self, s, i), d(b, s, i), d(r, s, i))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_not(self) -> (r: P<Option<O>, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == match d(self, s, i) {
            Out::Bot => Out::Bot, Out::Fail { .. } => ok(None, i), Out::Ok { v, j, clean } => Out::Ok { v: Some(v), j, clean } }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn then<U>(self, b: P<U, S>) -> (r: P<(O, U), S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == ({
            let x = d(self, s, i); let y = d(b, s, x->j); seq_out(x, y, (x->v, y->v)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ignore_then<U>(self, b: P<U, S>) -> (r: P<U, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == ({
            let x = d(self, s, i); let y = d(b, s, x->j); seq_out(x, y, y->v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn then_ignore<U>(self, b: P<U, S>) -> (r: P<O, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == ({
            let x = d(self, s, i); let y = d(b, s, x->j); seq_out(x, y, x->v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delimited_by<A, B>(self, a: P<A, S>, b: P<B, S>) -> (r: P<O, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == ({
            let x = d(a, s, i); let y = d(self, s, x->j); let xy = seq_out(x, y, y->v);
            let z = d(b, s, xy->j); seq_out(xy, z, xy->v) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<U: Chain>(self, b: P<U, S>) -> (r: P<Vec<char>, S>) where O: Chain
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> seq_of(d(r, s, i)) == ({
            let x = d(self, s, i); let y = d(b, s, x->j); seq_out(x, y, cat(x->v.chs(), y->v.chs())) })
    { unimplemented!() }
    pub fn chain_c<U: Chain>(self, b: P<U, S>) -> (r: P<Vec<char>, S>) where O: Chain
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> seq_of(d(r, s, i)) == ({
            let x = d(self, s, i); let y = d(b, s, x->j); seq_out(x, y, cat(x->v.chs(), y->v.chs())) })
    { self.chain(b) }
    #[verifier::external_body]
    pub fn flatten(self) -> (r: P<Vec<char>, S>) where O: Flatten
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> seq_of(d(r, s, i)) == ({
            let x = d(self, s, i); with(x, x->v.flat()) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ignored(self) -> (r: P<(), S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == with(d(self, s, i), ())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to<U>(self, u: U) -> (r: P<U, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == with(d(self, s, i), u)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rewind(self) -> (r: P<O, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> d(r, s, i) == match d(self, s, i) {
            Out::Ok { v, j, clean } => Out::Ok { v, j: i, clean }, x => x }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(O) -> U>(self, f: F) -> (r: P<U, S>)
        requires forall|v: O| f.requires((v,))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> ({
            let x = d(self, s, i); let y = d(r, s, i);
            y == with(x, y->v) && (x is Ok ==> f.ensures((x->v,), y->v)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map_with_span<U, F: Fn(O, S) -> U>(self, f: F) -> (r: P<U, S>)
        requires forall|v: O, x: S| f.requires((v, x))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> ({
            let x = d(self, s, i); let y = d(r, s, i);
            y == with(x, y->v) && (x is Ok ==> f.ensures((x->v, spn::<S>(s, i, x->j)), y->v)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_map<U, F: Fn(O, S) -> Result<U, Error<S>>>(self, f: F) -> (r: P<U, S>)
        requires forall|v: O, x: S| f.requires((v, x))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> match d(self, s, i) {
            Out::Bot => d(r, s, i) == Out::<U>::Bot, Out::Fail { clean } => d(r, s, i) == (Out::<U>::Fail { clean }),
            Out::Ok { v, j, clean } => exists|b: Result<U, Error<S>>| #[trigger] f.ensures((v, spn::<S>(s, i, j)), b)
                && d(r, s, i) == match b { Ok(u) => Out::Ok { v: u, j, clean }, Err(_) => Out::Fail { clean } } }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn validate<U, F: Fn(O, S, &mut Emitter<S>) -> U>(self, f: F) -> (r: P<U, S>)
        requires forall|v: O, x: S, e: &mut Emitter<S>| f.requires((v, x, e))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> ({
            let x = d(self, s, i); let y = d(r, s, i);
            &&& x is Bot ==> y is Bot
            &&& x is Fail ==> y == (Out::<U>::Fail { clean: x->Fail_clean })
            &&& x is Ok ==> exists|e: &mut Emitter<S>| e.x@.len() == 0 && #[trigger] f.ensures((d(self, s, i)->v, spn::<S>(s, i, d(self, s, i)->j), e), d(r, s, i)->v)
                && y == (Out::Ok { v: y->v, j: x->j, clean: x->Ok_clean && final(e).x@.len() == 0 }) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn then_with<U, F: Fn(O) -> P<U, S>>(self, f: F) -> (r: P<U, S>)
        requires forall|v: O| f.requires((v,))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> if d(self, s, i) is Ok {
            exists|b: P<U, S>| #[trigger] f.ensures((d(self, s, i)->v,), b) && d(r, s, i) == seq_out(d(self, s, i), d(b, s, d(self, s, i)->j), d(b, s, d(self, s, i)->j)->v)
        } else { d(r, s, i) == with(d(self, s, i), d(r, s, i)->v) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn repeated_g(self, min: usize, max: Option<usize>) -> (r: P<Vec<O>, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> seq_of(d(r, s, i)) ==
            reps(self, s, min as nat, match max { Some(m) => Some(m as nat), None => None }, i, 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn separated_g<U>(self, dl: P<U, S>, leading: bool, trailing: bool) -> (r: P<Vec<O>, S>)
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> seq_of(d(r, s, i)) == sep_all(self, dl, leading, trailing, s, i)
    { unimplemented!() }
    /// `recover_with(skip_until(..))`
    #[verifier::external_body]
    pub fn recover_until<const N: usize, F: Fn(S) -> O>(self, c: [char; N], f: F) -> (r: P<O, S>)
        requires forall|x: S| f.requires((x,))
        ensures forall|s: Seq<char>, i: int| #![trigger d(r, s, i)] within(s, i) ==> match d(self, s, i) {
            Out::Bot => d(r, s, i) is Bot,
            Out::Ok { v, j, clean } => d(r, s, i) == (Out::Ok { v, j, clean }),
            Out::Fail { .. } => match find(c@, s, i) {
                Some(k) => exists|x: S| #[trigger] f.ensures((x,), d(r, s, i)->v) && d(r, s, i) == (Out::Ok { v: d(r, s, i)->v, j: k, clean: false }),
                None => if i < s.len() { exists|x: S| #[trigger] f.ensures((x,), d(r, s, i)->v) && d(r, s, i) == (Out::Ok { v: d(r, s, i)->v, j: s.len() as int, clean: false }) }
                    else { d(r, s, i) == (Out::<O>::Fail { clean: false }) },
            } }
    { unimplemented!() }
}

pub open spec fn option_map<A, B>(v: Seq<A>, g: spec_fn(A) -> Option<B>) -> Seq<B> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { let r = option_map(v.drop_last(), g); match g(v.last()) { Some(b) => r.push(b), None => r } }
}
/// `v.into_iter().filter_map(f).collect()`
#[verifier::external_body]
pub fn filter_map_collect<A, B, F: Fn(A) -> Option<B>>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| f.requires((a,)),
    ensures forall|g: spec_fn(A) -> Option<B>| (forall|a: A, b: Option<B>| #[trigger] f.ensures((a,), b) ==> b == g(a)) ==> r@ == #[trigger] option_map(v@, g)
{ v.into_iter().filter_map(f).collect() }

// ---- texts ------------------------------------------------------------------
pub broadcast axiom fn str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// the boxed text with these characters
pub uninterp spec fn boxed(q: Seq<char>) -> Box<str>;
pub broadcast axiom fn boxed_text(q: Seq<char>) ensures (#[trigger] boxed(q))@ == q;
pub broadcast axiom fn text_boxed(b: Box<str>) ensures #[trigger] boxed(b@) == b;
#[verifier::external_body]
pub fn collect_string(v: Vec<char>) -> (r: String) ensures r@ == v@ { v.into_iter().collect() }
#[verifier::external_body]
pub fn into_box(v: String) -> (r: Box<str>) ensures r@ == v@, r == boxed(v@) { v.into() }
#[verifier::external_body]
pub fn any_of<F: Fn(&char) -> bool>(v: &Vec<char>, f: F) -> (r: bool)
    requires forall|c: &char| f.requires((c,))
    ensures r ==> exists|k: int| 0 <= k < v@.len() && #[trigger] f.ensures((&v@[k],), true),
        !r ==> forall|k: int| 0 <= k < v@.len() ==> f.ensures((#[trigger] &v@[k],), false)
{ v.iter().any(f) }
pub open spec fn strip(q: Seq<char>) -> Seq<char> { q.filter(|c: char| c != '_') }
#[verifier::external_body]
pub fn filter_collect<F: Fn(&char) -> bool>(v: Vec<char>, f: F) -> (r: String)
    requires forall|c: &char| f.requires((c,)),
    ensures forall|g: spec_fn(char) -> bool| (forall|c: &char, b: bool| #[trigger] f.ensures((c,), b) ==> b == g(*c)) ==> r@ == #[trigger] v@.filter(g)
{ v.into_iter().filter(|c| f(c)).collect() }
#[verifier::external_body]
pub fn str_push(v: &mut String, c: char) ensures final(v)@ == old(v)@.push(c) { v.push(c) }
#[verifier::external_body]
pub fn str_append(v: &mut String, t: String) ensures final(v)@ == old(v)@ + t@ { v.push_str(&t) }
pub open spec fn hexval(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
    else { 99 }
}
#[verifier::external_body]
pub fn is_digit(c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 16
    ensures r == (hexval(c) < radix)
{ c.is_digit(radix) }

/// error values are not built by the verified text
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Error<S> { x: std::marker::PhantomData<S> }
#[verifier::external_body]
pub fn error_value<S>() -> Error<S> { unimplemented!() }
}
verus! {
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (r: Result<T, E>, f: F) -> (x: Result<U, E>)
    requires r is Ok ==> f.requires((r->Ok_0,))
    ensures match r { Ok(v) => f.ensures((v,), x), Err(e) => x == Err::<U, E>(e) };
}
