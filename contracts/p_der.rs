// What derived decoders use: the traits of the crate with a functional
// meaning, and the library functions behind the rewrites.
verus! {
/// an error without the text of its message
pub enum ErrV<S> {
    TypeName { span: S, found: Option<TypeName>, rust: Seq<char> },
    Kind { span: S, expected: Kind, found: Kind },
    Missing { span: S },
    MissingNode,
    Unexpected { span: S, kind: Seq<char> },
    Conversion { span: S },
    Unsupported { span: S },
    Custom,
}
pub open spec fn ev<S: ErrorSpan>(e: DecodeError<S>) -> ErrV<S> {
    match e {
        DecodeError::TypeName { span, found, expected, rust_type } => ErrV::TypeName { span, found, rust: rust_type@ },
        DecodeError::ScalarKind { span, expected, found } => ErrV::Kind { span, expected: expected.0, found },
        DecodeError::Missing { span, message } => ErrV::Missing { span },
        DecodeError::MissingNode { message } => ErrV::MissingNode,
        DecodeError::Unexpected { span, kind, message } => ErrV::Unexpected { span, kind: kind@ },
        DecodeError::Conversion { span, source } => ErrV::Conversion { span },
        DecodeError::Unsupported { span, message } => ErrV::Unsupported { span },
        DecodeError::Custom(_) => ErrV::Custom,
    }
}
pub struct CtxV<S> { pub errors: Seq<ErrV<S>>, pub ext: Map<TypeId, AnyBox> }
pub open spec fn cv<S: ErrorSpan>(c: Context<S>) -> CtxV<S> {
    CtxV { errors: c.errors@.map_values(|e: DecodeError<S>| ev(e)), ext: c.extensions@ }
}
pub open spec fn emit<S>(c: CtxV<S>, e: ErrV<S>) -> CtxV<S> { CtxV { errors: c.errors.push(e), ext: c.ext } }
pub type RV<T, S> = Result<T, ErrV<S>>;
pub open spec fn rv<T, S: ErrorSpan>(r: Result<T, DecodeError<S>>) -> RV<T, S> {
    match r { Ok(v) => Ok(v), Err(e) => Err(ev(e)) }
}
pub open spec fn put<T, S>(r: RV<T, S>, c: CtxV<S>) -> (RV<T, S>, CtxV<S>) { (r, c) }
pub broadcast proof fn emitted_v<S: ErrorSpan>(a: Context<S>, b: Context<S>, e: DecodeError<S>)
    requires #[trigger] emitted(a, b, e)
    ensures cv(b) == emit(cv(a), ev(e))
{
    assert(cv(b).errors =~= emit(cv(a), ev(e)).errors);
}

// ---- the traits -------------------------------------------------------------
pub trait Decode<S: ErrorSpan>: Sized {
    spec fn dn(node: SpannedNode<S>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
    fn decode_node(node: &SpannedNode<S>, ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures (rv(ret), cv(*final(ctx))) == Self::dn(*node, cv(*old(ctx)));
}
pub trait DecodeChildren<S: ErrorSpan>: Sized {
    spec fn dc(nodes: Seq<SpannedNode<S>>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
    fn decode_children(children: &[SpannedNode<S>], ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures (rv(ret), cv(*final(ctx))) == Self::dc(children@, cv(*old(ctx)));
}
pub trait DecodePartial<S: ErrorSpan>: Sized {
    spec fn ic(a: Self, node: SpannedNode<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self);
    spec fn ip(a: Self, name: SpannedName<S>, v: Value<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self);
    fn insert_child(&mut self, node: &SpannedNode<S>, ctx: &mut Context<S>) -> (ret: Result<bool, DecodeError<S>>)
        ensures (rv(ret), cv(*final(ctx)), *final(self)) == Self::ic(*old(self), *node, cv(*old(ctx)));
    fn insert_property(&mut self, name: &Spanned<Box<str>, S>, value: &Value<S>, ctx: &mut Context<S>) -> (ret: Result<bool, DecodeError<S>>)
        ensures (rv(ret), cv(*final(ctx)), *final(self)) == Self::ip(*old(self), *name, *value, cv(*old(ctx)));
}
pub trait DecodeScalar<S: ErrorSpan>: Sized {
    spec fn ds(v: Value<S>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
    fn decode(value: &Value<S>, ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures (rv(ret), cv(*final(ctx))) == Self::ds(*value, cv(*old(ctx)));
}
pub trait DecodeSpan<S: ErrorSpan>: Sized {
    spec fn sp(span: S, c: CtxV<S>) -> (Self, CtxV<S>);
    fn decode_span(span: &S, ctx: &mut Context<S>) -> (ret: Self)
        ensures (ret, cv(*final(ctx))) == Self::sp(*span, cv(*old(ctx)));
}
/// `FromStr` and `str::parse`
pub trait DFromStr: Sized {
    spec fn parsed(s: Seq<char>) -> Option<Self>;
    fn from_str(s: &str) -> (r: Result<Self, NumErr>)
        ensures match Self::parsed(s@) { Some(v) => r == Ok::<Self, NumErr>(v), None => r is Err };
}
pub trait MParse { spec fn text_of(&self) -> Seq<char>;
    fn mparse<F: DFromStr>(&self) -> (r: Result<F, NumErr>)
        ensures match F::parsed(self.text_of()) { Some(v) => r == Ok::<F, NumErr>(v), None => r is Err }; }
impl MParse for str {
    open spec fn text_of(&self) -> Seq<char> { self@ }
    fn mparse<F: DFromStr>(&self) -> (r: Result<F, NumErr>) { F::from_str(self) }
}
/// `TryFrom<Vec<u8>>`
pub trait MFromBytes: Sized { spec fn of_bytes(b: Seq<u8>) -> Option<Self>;
    fn of(b: Vec<u8>) -> (r: Result<Self, NumErr>)
        ensures match Self::of_bytes(b@) { Some(v) => r == Ok::<Self, NumErr>(v), None => r is Err }; }
pub trait MTryInto { spec fn bytes_of_v(&self) -> Seq<u8>;
    fn mtry_into<F: MFromBytes>(self) -> (r: Result<F, NumErr>)
        ensures match F::of_bytes(self.bytes_of_v()) { Some(v) => r == Ok::<F, NumErr>(v), None => r is Err }; }
impl MTryInto for Vec<u8> {
    open spec fn bytes_of_v(&self) -> Seq<u8> { self@ }
    fn mtry_into<F: MFromBytes>(self) -> (r: Result<F, NumErr>) { F::of(self) }
}
pub uninterp spec fn bytes_v<S: ErrorSpan>(v: Value<S>, c: CtxV<S>) -> (Seq<u8>, CtxV<S>);
#[verifier::external_body]
pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> (r: Vec<u8>)
    ensures (r@, cv(*final(ctx))) == bytes_v(*value, cv(*old(ctx)))
{ unimplemented!() }
/// `Default`
pub trait DDefault: Sized { spec fn dflt() -> Self; fn default() -> (r: Self) ensures r == Self::dflt(); }
pub fn ddefault<T: DDefault>() -> (r: T) ensures r == T::dflt() { T::default() }

// ---- collections --------------------------------------------------------------
/// the list with these elements
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn vec_of_view<T>(v: Vec<T>)
    ensures vec_of(#[trigger] v@) == v;
/// `FromIterator`
pub trait MCollect<T>: Sized { spec fn col(s: Seq<T>) -> Self; fn from_items(v: Vec<T>) -> (r: Self) ensures r == Self::col(v@); }
impl<T> MCollect<T> for Vec<T> {
    open spec fn col(s: Seq<T>) -> Self { vec_of(s) }
    fn from_items(v: Vec<T>) -> (r: Self) { broadcast use vec_of_view; v }
}
pub fn from_vec<T, C: MCollect<T>>(v: Vec<T>) -> (r: C) ensures r == C::col(v@) { C::from_items(v) }
#[verifier::external_body]
pub fn push_or_new<T>(o: &mut Option<Vec<T>>, x: T)
    ensures (*final(o)) is Some, (*final(o))->0@ == (match *old(o) { Some(v) => v@, None => Seq::empty() }).push(x)
{ o.get_or_insert_with(Vec::new).push(x) }
pub fn empty_slice<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { &[] }
pub trait MAll { type Out: ?Sized; spec fn is_all(&self, r: &Self::Out) -> bool; fn mall(&self) -> (r: &Self::Out) ensures self.is_all(r); }
impl<T> MAll for Vec<T> {
    type Out = [T];
    open spec fn is_all(&self, r: &[T]) -> bool { r@ == self@ }
    fn mall(&self) -> (r: &[T]) { self.as_slice() }
}
impl MAll for str {
    type Out = str;
    open spec fn is_all(&self, r: &str) -> bool { r@ == self@ }
    fn mall(&self) -> (r: &str) { self }
}
/// `slice::iter` used with `next`
pub struct ArgIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> ArgIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.v@.len() }
    pub fn new(v: &'a Vec<T>) -> (r: Self) ensures r.v == v, r.i == 0, r.wf() { ArgIter { v, i: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).v == old(self).v,
            match r {
                Some(x) => old(self).i < old(self).v@.len() && *x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i == old(self).v@.len() && final(self).i == old(self).i,
            }
    { if self.i < self.v.len() { self.i = self.i + 1; Some(&self.v[self.i - 1]) } else { None } }
}
impl<K, V> PMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn mmessage() -> (r: String) { unimplemented!() }
impl<'a> MInto<ErrBox> for &'a str {
    open spec fn into_ok(self, r: ErrBox) -> bool { true }
    #[verifier::external_body]
    fn minto(self) -> ErrBox { unimplemented!() }
}

// ---- values in another notation -------------------------------------------------
pub open spec fn annotated<S: ErrorSpan>(v: Value<S>, rust: Seq<char>, c: CtxV<S>) -> CtxV<S> {
    match v.type_name { Some(t) => emit(c, ErrV::TypeName { span: t.span, found: Some(t.value), rust }), None => c }
}
pub open spec fn str_dec<T: DFromStr, S: ErrorSpan>(v: Value<S>, c: CtxV<S>) -> (RV<T, S>, CtxV<S>) {
    let c = annotated(v, "str"@, c);
    match v.literal.value {
        Literal::String(s) => match T::parsed(s@) { Some(x) => (Ok(x), c), None => (Err(ErrV::Conversion { span: v.literal.span }), c) },
        l => (Err(ErrV::Kind { span: v.literal.span, expected: Kind::String, found: kind_of(l) }), c),
    }
}
pub open spec fn str_opt<T: DFromStr, S: ErrorSpan>(v: Value<S>, c: CtxV<S>) -> (RV<Option<T>, S>, CtxV<S>) {
    let c = annotated(v, "str"@, c);
    match v.literal.value {
        Literal::String(s) => match T::parsed(s@) { Some(x) => (Ok(Some(x)), c), None => (Err(ErrV::Conversion { span: v.literal.span }), c) },
        Literal::Null => (Ok(None), c),
        l => (Ok(None), emit(c, ErrV::Kind { span: v.literal.span, expected: Kind::String, found: kind_of(l) })),
    }
}
pub open spec fn bytes_dec<T: MFromBytes, S: ErrorSpan>(v: Value<S>, c: CtxV<S>) -> (RV<T, S>, CtxV<S>) {
    let (b, c) = bytes_v(v, c);
    match T::of_bytes(b) { Some(x) => (Ok(x), c), None => (Err(ErrV::Conversion { span: v.literal.span }), c) }
}
pub open spec fn bytes_opt<T: MFromBytes, S: ErrorSpan>(v: Value<S>, c: CtxV<S>) -> (RV<Option<T>, S>, CtxV<S>) {
    if v.literal.value is Null { (Ok(None), c) } else {
        let (b, c) = bytes_v(v, c);
        match T::of_bytes(b) { Some(x) => (Ok(Some(x)), c), None => (Ok(None), emit(c, ErrV::Conversion { span: v.literal.span })) }
    }
}
pub open spec fn str_err<T, S>(r: Option<T>, span: S, c: CtxV<S>) -> (RV<T, S>, CtxV<S>) {
    match r { Some(x) => (Ok(x), c), None => (Err(ErrV::Conversion { span }), c) }
}
pub open spec fn kids<S: ErrorSpan>(n: SpannedNode<S>) -> Seq<SpannedNode<S>> {
    match n.value.children { Some(c) => c.value@, None => Seq::empty() }
}
/// a node without anything in it: one error per item
pub open spec fn bare_errors<S: ErrorSpan>(n: Node<S>) -> Seq<ErrV<S>> {
    n.arguments@.map_values(|v: Value<S>| ErrV::Unexpected { span: v.literal.span, kind: "argument"@ })
    + n.properties@.map_values(|p: (SpannedName<S>, Value<S>)| ErrV::Unexpected { span: p.0.span, kind: "property"@ })
    + (match n.children { Some(c) => c.value@.map_values(|k: SpannedNode<S>| ErrV::Unexpected { span: k.span, kind: "node"@ }), None => Seq::empty() })
}
pub open spec fn bare<S: ErrorSpan>(n: Node<S>, c: CtxV<S>) -> CtxV<S> {
    CtxV { errors: c.errors + bare_errors(n), ext: c.ext }
}
pub broadcast proof fn flag_is_bare<S: ErrorSpan>(n: Node<S>, a: Context<S>, b: Context<S>)
    requires #[trigger] flag_upto(n, a, b, flag_errors(n))
    ensures cv(b) == bare(n, cv(a))
{
    let m = a.errors@.len() as int;
    let x = cv(b).errors; let y = cv(a).errors + bare_errors(n);
    assert(x.len() == y.len());
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
        if i < m { assert(a.errors@[i] == b.errors@.take(m)[i]); }
        else { assert(flag_error_ok(n, i - m, b.errors@[m + (i - m)])); }
    }
    assert(x =~= y);
}
pub open spec fn bare_upto<S: ErrorSpan>(n: Node<S>, k: int, c: CtxV<S>) -> CtxV<S> {
    CtxV { errors: c.errors + bare_errors(n).take(k), ext: c.ext }
}
pub broadcast proof fn bare_all<S: ErrorSpan>(n: Node<S>, k: int, c: CtxV<S>)
    requires k == bare_errors(n).len()
    ensures #[trigger] bare_upto(n, k, c) == bare(n, c)
{
    assert(bare_errors(n).take(k) =~= bare_errors(n));
}
pub proof fn bare_none<S: ErrorSpan>(n: Node<S>, c: CtxV<S>)
    ensures bare_upto(n, 0, c) == c
{
    assert(c.errors + bare_errors(n).take(0) =~= c.errors);
}
pub proof fn bare_step<S: ErrorSpan>(n: Node<S>, k: int, c: CtxV<S>)
    requires 0 <= k < bare_errors(n).len()
    ensures bare_upto(n, k + 1, c) == emit(bare_upto(n, k, c), bare_errors(n)[k])
{
    assert(c.errors + bare_errors(n).take(k + 1) =~= (c.errors + bare_errors(n).take(k)).push(bare_errors(n)[k]));
}
}
// ---- leaves: any types with these traits ------------------------------------------
macro_rules! leaf {
    ($t:ident) => { verus!{
        #[verifier::external_body]
        pub struct $t { x: u8 }
        impl<S: ErrorSpan> Decode<S> for $t {
            uninterp spec fn dn(node: SpannedNode<S>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
            #[verifier::external_body]
            fn decode_node(node: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> { unimplemented!() }
        }
        impl<S: ErrorSpan> DecodeScalar<S> for $t {
            uninterp spec fn ds(v: Value<S>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
            #[verifier::external_body]
            fn decode(value: &Value<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> { unimplemented!() }
        }
        impl<S: ErrorSpan> DecodeScalar<S> for Option<$t> {
            uninterp spec fn ds(v: Value<S>, c: CtxV<S>) -> (RV<Self, S>, CtxV<S>);
            #[verifier::external_body]
            fn decode(value: &Value<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> { unimplemented!() }
        }
        impl<S: ErrorSpan> DecodeSpan<S> for $t {
            uninterp spec fn sp(span: S, c: CtxV<S>) -> (Self, CtxV<S>);
            #[verifier::external_body]
            fn decode_span(span: &S, ctx: &mut Context<S>) -> Self { unimplemented!() }
        }
        impl DFromStr for $t {
            uninterp spec fn parsed(s: Seq<char>) -> Option<Self>;
            #[verifier::external_body]
            fn from_str(s: &str) -> Result<Self, NumErr> { unimplemented!() }
        }
        impl MFromBytes for $t {
            uninterp spec fn of_bytes(b: Seq<u8>) -> Option<Self>;
            #[verifier::external_body]
            fn of(b: Vec<u8>) -> Result<Self, NumErr> { unimplemented!() }
        }
        impl DDefault for $t {
            uninterp spec fn dflt() -> Self;
            #[verifier::external_body]
            fn default() -> Self { unimplemented!() }
        }
        impl<S: ErrorSpan> DecodePartial<S> for $t {
            uninterp spec fn ic(a: Self, node: SpannedNode<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self);
            uninterp spec fn ip(a: Self, name: SpannedName<S>, v: Value<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self);
            #[verifier::external_body]
            fn insert_child(&mut self, node: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<bool, DecodeError<S>> { unimplemented!() }
            #[verifier::external_body]
            fn insert_property(&mut self, name: &Spanned<Box<str>, S>, value: &Value<S>, ctx: &mut Context<S>) -> Result<bool, DecodeError<S>> { unimplemented!() }
        }
    } }
}
leaf!(A);
leaf!(B);
leaf!(C);
leaf!(P);
leaf!(Q);
verus! {
/// any other collection
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Col<T> { x: Vec<T> }
impl<T> MCollect<T> for Col<T> {
    uninterp spec fn col(s: Seq<T>) -> Self;
    #[verifier::external_body]
    fn from_items(v: Vec<T>) -> Self { unimplemented!() }
}
impl<T> DDefault for Vec<T> {
    open spec fn dflt() -> Self { vec_of(Seq::empty()) }
    fn default() -> Self { broadcast use vec_of_view; let v = Vec::new(); assert(v@ =~= Seq::empty()); v }
}
impl<T> DDefault for Option<T> {
    open spec fn dflt() -> Self { None }
    fn default() -> Self { None }
}
impl DDefault for bool {
    open spec fn dflt() -> Self { false }
    fn default() -> Self { false }
}
/// the value of a `default = expression`
pub uninterp spec fn given_v<T>() -> T;
#[verifier::external_body]
pub fn given<T>() -> (r: T) ensures r == given_v::<T>() { unimplemented!() }
}
