import re
from vf import Unit, apply_subs, inline_maps

INTS = ("i8 u8 i16 u16 i32 u32 i64 u64 isize usize").split()


def unit():
    u = Unit("dec", ["p_dec.rs"], subs=[
        (re.compile(r"pub\s*\(\s*crate\s*\)"), "pub"),
        (re.compile(r"\bpub\s+const\s+fn\b"), "pub fn"),
        ("Box<dyn std::error::Error + Send + Sync + 'static>", "ErrBox"),
        ("Cow<'static, str>", "CowStr"),
        ("HashMap<TypeId, Box<dyn Any>>", "TypeMap"),
        ("HashMap::new()", "TypeMap::new()"),
        ("TypeId::of::<", "type_id::<"), ("Box::new(value)", "any_box(value)"),
        (re.compile(r'(?<!")Arc<Path>'), "ArcPath"), (re.compile(r'(?<!")Arc<str>'), "ArcStr"),
        ("BTreeMap<", "PMap<"), (re.compile(r"&node\.properties\b"), "node.properties.items()"),
        ("String::from(", "string_from("), ("PathBuf::from(", "pathbuf_from("),
        ("PathBuf::default()", "pathbuf_default()"),
        ("String::default()", "string_default()"),
        ("Default::default()", "mdefault()"),
        (".escape_default()", ".mescape()"), ("format!(", "mformat1("),
        (".as_bytes()", ".mas_bytes()"), ("STANDARD.decode(", "base64_decode("),
        (".clone()", ".mclone()"), (".into()", ".minto()"),
        (re.compile(r"\bInto<"), "MInto<"), ("MMInto<", "MInto<"),
        (".map(Some)", ".map(mk_some)"),
        (re.compile(r"&\(\*\*(\w+)\)\[\.\.\]"), r"&**\1"),
        (re.compile(r"&(\w+)\[\.\.\]"), r"&*\1"),
        (re.compile(r"<(\w+) as FromStr>::Err"), "NumErr"),
        (re.compile(r"<(\w+)>::(from_str_radix|from_str)\("), r"\1_\2("),
        ("sealed::", ""), ("traits::", ""), ("std::ops::", ""),
    ])
    u.dropped = [
        "Clone, Into and Default are renamed to traits with a contract; "
        "derived Clone is assumed to return an equal value",
        "format!, escape_default, base64, str::parse/from_str_radix, "
        "HashMap<TypeId, Box<dyn Any>>, BTreeMap, PathBuf, Arc<str>, "
        "Arc<Path>, Cow and Box<dyn Error> are replaced by types and "
        "functions with assumed contracts",
        "value.try_into() is written as a call of the TryFrom impl",
        "attributes, visibility, const and doc comments",
    ]
    u.text("verus!{ use std::sync::Arc; use std::rc::Rc; "
           "broadcast use str_ext; }")
    pubs = lambda *fs: [(re.compile(r"\b(%s):" % "|".join(fs)), r"pub \1:"),
                        ("pub pub", "pub")]
    u.text("""verus!{
pub trait ErrorSpan: MClone {}
pub trait Span: ErrorSpan {}
}""")
    for t in ("Node", "Document", "Decimal", "Value"):
        u.type("ast.rs", t)
    u.type("ast.rs", "Integer")
    u.type("ast.rs", "Radix")
    u.type("ast.rs", "TypeName", subs=[("(TypeNameInner)", "(pub TypeNameInner)")])
    u.type("ast.rs", "TypeNameInner")
    u.type("ast.rs", "BuiltinType", attrs="#[derive(Structural, PartialEq, Eq)]")
    u.type("ast.rs", "Literal")
    u.type("span.rs", "Spanned")
    u.type("decode.rs", "Kind")
    u.type("decode.rs", "Context", subs=pubs("errors", "extensions"))
    u.type("errors.rs", "DecodeError")
    u.type("errors.rs", "ExpectedType", subs=pubs("types", "no_type"))
    u.type("errors.rs", "ExpectedKind", subs=[("(Kind)", "(pub Kind)")])
    u.text("""verus!{
pub type SpannedChildren<S> = Spanned<Vec<SpannedNode<S>>, S>;
pub type SpannedName<S> = Spanned<Box<str>, S>;
pub type SpannedNode<S> = Spanned<Node<S>, S>;
impl MClone for Literal { #[verifier::external_body] fn mclone(&self) -> (r: Self) { unimplemented!() } }
impl MClone for TypeName { #[verifier::external_body] fn mclone(&self) -> (r: Self) { unimplemented!() } }

// ---- what the statements say ------------------------------------------------
pub open spec fn builtin_name(b: BuiltinType) -> Seq<char> {
    match b {
        BuiltinType::U8 => "u8"@, BuiltinType::I8 => "i8"@,
        BuiltinType::U16 => "u16"@, BuiltinType::I16 => "i16"@,
        BuiltinType::U32 => "u32"@, BuiltinType::I32 => "i32"@,
        BuiltinType::U64 => "u64"@, BuiltinType::I64 => "i64"@,
        BuiltinType::Usize => "usize"@, BuiltinType::Isize => "isize"@,
        BuiltinType::F32 => "f32"@, BuiltinType::F64 => "f64"@,
        BuiltinType::Base64 => "base64"@,
    }
}
pub proof fn lits()
    ensures forall|a: BuiltinType, b: BuiltinType| #[trigger] builtin_name(a) == #[trigger] builtin_name(b) ==> a == b,
{
    reveal_strlit("u8"); reveal_strlit("i8"); reveal_strlit("u16"); reveal_strlit("i16");
    reveal_strlit("u32"); reveal_strlit("i32"); reveal_strlit("u64"); reveal_strlit("i64");
    reveal_strlit("usize"); reveal_strlit("isize"); reveal_strlit("f32"); reveal_strlit("f64");
    reveal_strlit("base64");
    assert forall|a: BuiltinType, b: BuiltinType| #[trigger] builtin_name(a) == #[trigger] builtin_name(b) implies a == b by {
        let x = builtin_name(a); let y = builtin_name(b);
        assert(x.len() == y.len());
        assert(x[0] == y[0] && x[1] == y[1] && (x.len() > 2 ==> x[2] == y[2]));
    }
}
pub open spec fn type_text(t: TypeName) -> Seq<char> {
    match t.0 { TypeNameInner::Builtin(b) => builtin_name(b), TypeNameInner::Custom(s) => s@ }
}
/// a custom name is none of the builtin ones
pub open spec fn type_wf(t: TypeName) -> bool {
    match t.0 { TypeNameInner::Builtin(_) => true,
        TypeNameInner::Custom(s) => forall|b: BuiltinType| s@ != #[trigger] builtin_name(b) }
}
// C24, C13: names are equal exactly when their texts are
pub proof fn type_text_injective(a: TypeName, b: TypeName)
    requires type_wf(a), type_wf(b), type_text(a) == type_text(b)
    ensures a == b
{
    lits();
    if let TypeNameInner::Custom(x) = a.0 { if let TypeNameInner::Custom(y) = b.0 { boxstr_ext(x, y); } }
}
pub open spec fn kind_of(l: Literal) -> Kind {
    match l { Literal::Int(_) => Kind::Int, Literal::Decimal(_) => Kind::Decimal,
        Literal::String(_) => Kind::String, Literal::Bool(_) => Kind::Bool, Literal::Null => Kind::Null }
}
pub open spec fn radix_of(r: Radix) -> int {
    match r { Radix::Bin => 2, Radix::Oct => 8, Radix::Dec => 10, Radix::Hex => 16 }
}
// ---- reported errors ----------------------------------------------------------
pub open spec fn same<S: ErrorSpan>(a: Context<S>, b: Context<S>) -> bool {
    b.errors@ == a.errors@ && b.extensions@ == a.extensions@
}
pub open spec fn grows<S: ErrorSpan>(a: Context<S>, b: Context<S>) -> bool {
    a.errors@.is_prefix_of(b.errors@)
}
pub open spec fn emitted<S: ErrorSpan>(a: Context<S>, b: Context<S>, e: DecodeError<S>) -> bool {
    b.errors@ == a.errors@.push(e) && b.extensions@ == a.extensions@
}
/// the errors so far: those emitted and the one returned
pub open spec fn all_errors<S: ErrorSpan, T>(c: Context<S>, r: Result<T, DecodeError<S>>) -> Seq<DecodeError<S>> {
    match r { Ok(_) => c.errors@, Err(e) => c.errors@.push(e) }
}
/// exactly one error is reported, by emitting or by returning it
pub open spec fn one_error<S: ErrorSpan, T>(a: Context<S>, b: Context<S>, r: Result<T, DecodeError<S>>) -> bool {
    let all = all_errors(b, r);
    all.len() == a.errors@.len() + 1 && all.drop_last() =~= a.errors@ && b.extensions@ == a.extensions@
}
pub open spec fn kind_error<S: ErrorSpan>(e: DecodeError<S>, k: Kind, v: Spanned<Literal, S>) -> bool {
    e == (DecodeError::<S>::ScalarKind { span: v.span, expected: ExpectedKind(k), found: kind_of(v.value) })
}
pub open spec fn conversion_error<S: ErrorSpan>(e: DecodeError<S>, span: S) -> bool {
    e matches DecodeError::Conversion { span: s, source } && s == span
}
pub open spec fn name_error<S: ErrorSpan>(e: DecodeError<S>, n: Spanned<TypeName, S>, expected: Seq<TypeName>, rust: Seq<char>) -> bool {
    e matches DecodeError::TypeName { span, found, expected: x, rust_type }
        && span == n.span && found == Some(n.value) && x.types@ =~= expected && x.no_type && rust_type@ == rust
}
pub open spec fn unexpected<S: ErrorSpan>(e: DecodeError<S>, at: S, what: Seq<char>) -> bool {
    e matches DecodeError::Unexpected { span, kind, message } && span == at && kind@ == what
}
/// an annotation other than `b` is the one reported error
pub open spec fn checks_name<S: ErrorSpan>(tn: Option<Spanned<TypeName, S>>, a: Context<S>, b: Context<S>, t: Option<BuiltinType>, rust: Seq<char>) -> bool {
    let want: Seq<TypeName> = match t { Some(x) => seq![TypeName(TypeNameInner::Builtin(x))], None => Seq::empty() };
    match tn {
        None => same(a, b),
        Some(n) => if t is Some && n.value.0 == TypeNameInner::Builtin(t->0) { same(a, b) }
            else { b.errors@.len() > 0 && emitted(a, b, b.errors@.last()) && name_error(b.errors@.last(), n, want, rust) },
    }
}
pub open spec fn wants<S: ErrorSpan, T>(k: Kind, v: Spanned<Literal, S>, a: Context<S>, b: Context<S>, r: Result<T, DecodeError<S>>) -> bool {
    one_error(a, b, r) && kind_error(all_errors(b, r).last(), k, v)
}
pub open spec fn rejects<S: ErrorSpan, T>(v: Spanned<Literal, S>, a: Context<S>, b: Context<S>, r: Result<T, DecodeError<S>>) -> bool {
    one_error(a, b, r) && conversion_error(all_errors(b, r).last(), v.span)
}
pub open spec fn gives<S: ErrorSpan, T>(x: T, a: Context<S>, b: Context<S>, r: Result<T, DecodeError<S>>) -> bool {
    same(a, b) && r == Ok::<T, DecodeError<S>>(x)
}
}""")
    A = dict
    imp = lambda t, g="": ("impl%s %s {" % (g, t), "}")
    SP = imp("Spanned<T, S>", "<T, S>")
    # ---- Spanned
    u.open("impl<T, S> Deref for Spanned<T, S> {")
    u.items[-1] = ("open", "use std::ops::Deref; impl<T, S> Deref for Spanned<T, S> { type Target = T;\n")
    u.fn("span.rs", "<std::ops::Deref for Spanned<T,S>>::deref",
         "ensures *ret == self.value", props=["C20", "C15", "C22"])
    u.close()
    u.fn("span.rs", "<Spanned<T,S>>::span", "ensures *ret == self.span",
         wrap=SP, props=["C23", "C10", "C20"])
    # ---- ast
    BT = imp("BuiltinType")
    u.fn("ast.rs", "<BuiltinType>::as_str", "ensures ret@ == builtin_name(*self)",
         wrap=BT, props=["C13", "C24"])
    u.fn("ast.rs", "<BuiltinType>::as_type",
         "ensures ret.0 == TypeNameInner::Builtin(self)", wrap=BT, props=["C13", "C24"])
    u.open("impl MInto<TypeName> for BuiltinType {",
           "open spec fn into_ok(self, r: TypeName) -> bool { r.0 == TypeNameInner::Builtin(self) }")
    u.fn("ast.rs", "<Into<TypeName> for BuiltinType>::into", "", rename="minto",
         props=["C13"])
    u.close()
    LITS = "proof { lits(); reveal_strlit(\"u8\"); }"
    u.fn("ast.rs", "<FromStr for BuiltinType>::from_str", """
    ensures match ret { Ok(b) => s@ == builtin_name(b), Err(_) => forall|b: BuiltinType| s@ != #[trigger] builtin_name(b) }""",
         wrap=BT, props=["C13", "C24"])
    TN = imp("TypeName")
    u.fn("ast.rs", "<TypeName>::from_string", "ensures type_text(ret) == val@, type_wf(ret)",
         wrap=TN, props=["C13", "C24"])
    u.fn("ast.rs", "<TypeName>::as_str", "ensures ret@ == type_text(*self)",
         wrap=TN, subs=[("t.as_ref()", "&**t")], props=["C13", "C24"])
    u.fn("ast.rs", "<TypeName>::as_builtin", """
    ensures match ret { Some(b) => self.0 == TypeNameInner::Builtin(*b), None => self.0 is Custom }""",
         wrap=TN, props=["C13", "C14"])
    u.fn("ast.rs", "<FromStr for TypeName>::from_str", """
    ensures ret is Ok, type_text(ret->Ok_0) == s@, type_wf(ret->Ok_0)""",
         wrap=TN, props=["C13", "C24"], sigsub=[("Infallible", "()")])
    # ---- kinds and errors
    u.fn("decode.rs", "<From<&'_Literal> for Kind>::from", "ensures ret == kind_of(*lit)",
         wrap=imp("Kind"), rename="from_literal", props=["C15", "C23"])
    u.fn("errors.rs", "<From<Kind> for ExpectedKind>::from", "ensures ret.0 == kind",
         wrap=imp("ExpectedKind"), rename="from_kind", props=["C15", "C23"])
    u.text("""verus!{
impl MInto<Kind> for &Literal {
    open spec fn into_ok(self, r: Kind) -> bool { r == kind_of(*self) }
    fn minto(self) -> Kind { let k = Kind::from_literal(self); assert(self.into_ok(k)); k }
}
impl MInto<ExpectedKind> for Kind {
    open spec fn into_ok(self, r: ExpectedKind) -> bool { r.0 == self }
    fn minto(self) -> ExpectedKind { let k = ExpectedKind::from_kind(self); assert(self.into_ok(k)); k }
}
}""")
    u.fn("decode.rs", "<Kind>::as_str", """ensures ret@ == (match *self {
        Kind::Int => "integer"@, Kind::Decimal => "decimal"@, Kind::String => "string"@,
        Kind::Bool => "boolean"@, Kind::Null => "null"@ })""",
         wrap=imp("Kind"), props=["C23"])
    ET = imp("ExpectedType")
    u.fn("errors.rs", "<ExpectedType>::no_type",
         "ensures ret.types@ == Seq::<TypeName>::empty(), ret.no_type", wrap=ET, props=["C13", "C23"])
    u.fn("errors.rs", "<ExpectedType>::required",
         "ensures ret.types@.len() == 1, ty.into_ok(ret.types@[0]), !ret.no_type", wrap=ET, props=["C13", "C23"])
    u.fn("errors.rs", "<ExpectedType>::optional",
         "ensures ret.types@.len() == 1, ty.into_ok(ret.types@[0]), ret.no_type", wrap=ET, props=["C13", "C23"])
    DE = imp("DecodeError<S>", "<S: ErrorSpan>")
    u.fn("errors.rs", "<DecodeError<S>>::conversion", "ensures conversion_error(ret, span.span)",
         wrap=DE, props=["C05", "C14", "C19", "C23"])
    u.fn("errors.rs", "<DecodeError<S>>::scalar_kind", "ensures kind_error(ret, expected, *found)",
         wrap=DE, props=["C15", "C23"])
    u.fn("errors.rs", "<DecodeError<S>>::missing", """
    ensures ret matches DecodeError::Missing { span, message: m } && span == node.value.node_name.span && message.into_ok(m)""",
         wrap=DE, props=["C16", "C17", "C23"])
    u.fn("errors.rs", "<DecodeError<S>>::unexpected", """
    ensures ret matches DecodeError::Unexpected { span, kind: k, message: m } && span == elem.span && k == kind && message.into_ok(m)""",
         wrap=DE, props=["C16", "C17", "C23"])
    u.fn("errors.rs", "<DecodeError<S>>::unsupported", """
    ensures ret matches DecodeError::Unsupported { span: s, message: m } && s == span.span && message.into_ok(m)""",
         wrap=DE, props=["C23"])
    # ---- context
    CX = imp("Context<S>", "<S: ErrorSpan>")
    u.fn("decode.rs", "<Context<S>>::new",
         "ensures ret.errors@.len() == 0, ret.extensions@ == Map::<TypeId, AnyBox>::empty()",
         wrap=CX, props=["C02", "C21"])
    u.fn("decode.rs", "<Context<S>>::emit_error",
         "ensures emitted(*old(self), *final(self), final(self).errors@.last()), err.into_ok(final(self).errors@.last())",
         wrap=CX, props=["C02", "C21"])
    u.fn("decode.rs", "<Context<S>>::has_errors", "ensures ret == (self.errors@.len() > 0)",
         wrap=CX, props=["C02"])
    u.fn("decode.rs", "<Context<S>>::into_errors", "ensures ret@ == self.errors@",
         wrap=CX, props=["C02"])
    u.text("""verus!{
/// the value stored for the type T
pub open spec fn stored<S: ErrorSpan, T>(c: Context<S>) -> Option<T> {
    if c.extensions@.contains_key(tid::<T>()) { contents::<T>(c.extensions@[tid::<T>()]) } else { None }
}
}""")
    u.fn("decode.rs", "<Context<S>>::set", """
    ensures stored::<S, T>(*final(self)) == Some(value), final(self).errors@ == old(self).errors@,
        forall|k: TypeId| k != tid::<T>() ==> final(self).extensions@.contains_key(k) == old(self).extensions@.contains_key(k),
        forall|k: TypeId| k != tid::<T>() && old(self).extensions@.contains_key(k) ==> final(self).extensions@[k] == #[trigger] old(self).extensions@[k]""",
         wrap=CX, props=["C21"])
    u.fn("decode.rs", "<Context<S>>::get", """
    ensures match stored::<S, T>(*self) { Some(v) => ret == Some(&v), None => ret is None }""",
         wrap=CX, props=["C21"],
         closures=[{"params": "b: &AnyBox", "ret": "(r: Option<&T>)",
                    "ens": "match contents::<T>(*b) { Some(v) => r == Some(&v), None => r is None }"}])
    u.text("""verus!{
// C21: other types and errors do not matter
pub proof fn other_types<S: ErrorSpan, T, U>(a: Context<S>, b: Context<S>)
    requires tid::<T>() != tid::<U>(),
        forall|k: TypeId| k != tid::<T>() ==> b.extensions@.contains_key(k) == a.extensions@.contains_key(k),
        forall|k: TypeId| k != tid::<T>() && a.extensions@.contains_key(k) ==> b.extensions@[k] == #[trigger] a.extensions@[k],
    ensures stored::<S, U>(b) == stored::<S, U>(a)
{}
pub proof fn errors_do_not_matter<S: ErrorSpan, U>(a: Context<S>, b: Context<S>, e: DecodeError<S>)
    requires emitted(a, b, e)
    ensures stored::<S, U>(b) == stored::<S, U>(a)
{}
}""")
    # ---- traits (signatures; the relations are what an implementation means)
    u.text("""verus!{
pub type Res<T, S> = Result<T, DecodeError<S>>;
pub trait Decode<S: ErrorSpan>: Sized {
    spec fn dn(node: SpannedNode<S>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool;
    fn decode_node(node: &SpannedNode<S>, ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures Self::dn(*node, *old(ctx), *final(ctx), ret), grows(*old(ctx), *final(ctx));
}
pub trait DecodeChildren<S: ErrorSpan>: Sized {
    spec fn dc(nodes: Seq<SpannedNode<S>>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool;
    fn decode_children(nodes: &[SpannedNode<S>], ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures Self::dc(nodes@, *old(ctx), *final(ctx), ret), grows(*old(ctx), *final(ctx));
}
pub trait DecodePartial<S: ErrorSpan>: Sized {
    /// not shared (reference counted values under construction)
    spec fn owned(&self) -> bool;
    spec fn ic(a: Self, node: SpannedNode<S>, c0: Context<S>, c1: Context<S>, b: Self, r: Res<bool, S>) -> bool;
    spec fn ip(a: Self, name: Spanned<Box<str>, S>, v: Value<S>, c0: Context<S>, c1: Context<S>, b: Self, r: Res<bool, S>) -> bool;
    fn insert_child(&mut self, node: &SpannedNode<S>, ctx: &mut Context<S>) -> (ret: Result<bool, DecodeError<S>>)
        requires old(self).owned()
        ensures Self::ic(*old(self), *node, *old(ctx), *final(ctx), *final(self), ret),
            final(self).owned(), grows(*old(ctx), *final(ctx));
    fn insert_property(&mut self, name: &Spanned<Box<str>, S>, value: &Value<S>, ctx: &mut Context<S>) -> (ret: Result<bool, DecodeError<S>>)
        requires old(self).owned()
        ensures Self::ip(*old(self), *name, *value, *old(ctx), *final(ctx), *final(self), ret),
            final(self).owned(), grows(*old(ctx), *final(ctx));
}
pub trait DecodeScalar<S: ErrorSpan>: Sized {
    spec fn tc(tn: Option<Spanned<TypeName, S>>, c0: Context<S>, c1: Context<S>) -> bool;
    spec fn rd(v: Spanned<Literal, S>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool;
    spec fn ds(v: Value<S>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool;
    /// `raw_decode` may be called on its own
    spec fn raw_ok() -> bool;
    fn type_check(type_name: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>)
        ensures Self::tc(*type_name, *old(ctx), *final(ctx)), grows(*old(ctx), *final(ctx));
    fn raw_decode(value: &Spanned<Literal, S>, ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        requires Self::raw_ok()
        ensures Self::rd(*value, *old(ctx), *final(ctx), ret), grows(*old(ctx), *final(ctx));
    fn decode(value: &Value<S>, ctx: &mut Context<S>) -> (ret: Result<Self, DecodeError<S>>)
        ensures Self::ds(*value, *old(ctx), *final(ctx), ret), grows(*old(ctx), *final(ctx));
}
pub trait DecodeSpan<S: ErrorSpan>: Sized {
    /// never touches the context
    spec fn silent() -> bool;
    spec fn sp(span: S, c0: Context<S>, c1: Context<S>, r: Self) -> bool;
    fn decode_span(span: &S, ctx: &mut Context<S>) -> (ret: Self)
        ensures Self::sp(*span, *old(ctx), *final(ctx), ret), grows(*old(ctx), *final(ctx)),
            Self::silent() ==> same(*old(ctx), *final(ctx));
}
}""")
    SIG_ = [(re.compile(r"\b_: &mut"), "_c: &mut")]
    u.open("impl<T: ErrorSpan> DecodeSpan<T> for T {",
           "open spec fn silent() -> bool { true } open spec fn sp(span: T, c0: Context<T>, c1: Context<T>, r: T) -> bool { r == span && same(c0, c1) }")
    u.fn("traits.rs", "<DecodeSpan<T> for T>::decode_span", sigsub=SIG_, props=["C20"])
    u.close()
    # ---- scalars
    def scalar(src, ty, impl, rd, tc, props, rawsubs=(), **k):
        """a DecodeScalar implementation; `decode` is the default method"""
        g = k.get("g", "<S: ErrorSpan>")
        u.open("impl%s DecodeScalar<S> for %s {" % (g, {"Arc<Path>": "ArcPath", "Arc<str>": "ArcStr"}.get(ty, ty)), """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, c0: Context<S>, c1: Context<S>) -> bool { %s }
    open spec fn rd(v: Spanned<Literal, S>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool { %s }
    open spec fn ds(v: Value<S>, c0: Context<S>, c1: Context<S>, r: Res<Self, S>) -> bool { exists|m: Context<S>| #[trigger] Self::tc(v.type_name, c0, m) && Self::rd(v.literal, m, c1, r) }
    open spec fn raw_ok() -> bool { true }
""" % (tc, rd))
        u.fn(src, impl + "raw_decode", subs=rawsubs, props=props)
        u.fn(src, impl + "type_check", props=["C13", "C23"],
             post=k.get("tcpost", ""))
        u.fn("traits.rs", "trait DecodeScalar::decode", props=["C13", "C15"])
        u.close()

    num = lambda t: t.upper() if t[0] in "f" else t[0].upper() + t[1:]
    for t in INTS:
        src = "convert.rs!impl_integer(%s, %s)" % (t, num(t))
        u.fn(src, "<TryFrom<&Integer> for %s>::try_from" % t, """
    ensures match fits_%s(val.1@, radix_of(val.0)) { Some(n) => ret == Ok::<%s, NumErr>(n), None => ret is Err }""" % (t, t),
             rename="try_from_" + t, props=["C05"])
        scalar(src, t, "<DecodeScalar<S> for %s>::" % t,
               "match v.value { Literal::Int(n) => match fits_%s(n.1@, radix_of(n.0)) { "
               "Some(x) => gives(x, c0, c1, r), None => rejects(v, c0, c1, r) }, "
               "_ => wants(Kind::Int, v, c0, c1, r) }" % t,
               "checks_name(tn, c0, c1, Some(BuiltinType::%s), \"%s\"@)" % (num(t), t),
               ["C05", "C15", "C23"],
               rawsubs=[("value.try_into()", "try_from_%s(value)" % t)])
    for t in ("f32", "f64"):
        src = "convert.rs!impl_float(%s, %s)" % (t, num(t))
        u.fn(src, "<TryFrom<&Decimal> for %s>::try_from" % t, """
    ensures match nearest_%s(val.0@) { Some(n) => ret == Ok::<%s, NumErr>(n), None => ret is Err }""" % (t, t),
             rename="try_from_" + t, props=["C05"])
        scalar(src, t, "<DecodeScalar<S> for %s>::" % t,
               "match v.value { Literal::Decimal(n) => match nearest_%s(n.0@) { "
               "Some(x) => gives(x, c0, c1, r), None => rejects(v, c0, c1, r) }, "
               "_ => wants(Kind::Decimal, v, c0, c1, r) }" % t,
               "checks_name(tn, c0, c1, Some(BuiltinType::%s), \"%s\"@)" % (num(t), t),
               ["C05", "C15", "C23"],
               rawsubs=[("value.try_into()", "try_from_%s(value)" % t)])
    for t in ("String", "PathBuf", "Arc<Path>", "Arc<str>"):
        scalar("convert.rs", t, "<DecodeScalar<S> for %s>::" % t,
               "match v.value { Literal::String(s) => same(c0, c1) && r is Ok && r->Ok_0@ == s@, "
               "_ => wants(Kind::String, v, c0, c1, r) }",
               "checks_name(tn, c0, c1, None, \"%s\"@)" % t, ["C15", "C23"])
    scalar("convert.rs", "bool", "<DecodeScalar<S> for bool>::",
           "match v.value { Literal::Bool(x) => gives(x, c0, c1, r), "
           "_ => wants(Kind::Bool, v, c0, c1, r) }",
           "checks_name(tn, c0, c1, None, \"bool\"@)", ["C15", "C23"])
    # ---- bytes, flag nodes, single nodes
    u.fn("decode.rs", "bytes", """
    ensures grows(*old(ctx), *final(ctx)), bytes_rel(*value, *old(ctx), *final(ctx), ret@)""",
         props=["C14", "C15", "C23"], subs=[
             ('#[cfg(feature="base64")] {', "{"),
             (re.compile(r"Some\(&(BuiltinType::\w+)\)\s*=>"), r"Some(\1) =>"),
             ("use base64::{Engine, engine::general_purpose::STANDARD};", ""),
             (re.compile(r'#\[cfg\(not\(feature="base64"\)\)\] \{.*?mdefault\(\)\s*\}', re.S), ""),
             (re.compile(r'#\[cfg\(not\(feature="base64"\)\)\] \{.*?Default::default\(\)\s*\}', re.S), ""),
         ])
    u.items.insert(len(u.items) - 1, """verus!{
pub open spec fn bytes_rel<S: ErrorSpan>(v: Value<S>, a: Context<S>, b: Context<S>, r: Seq<u8>) -> bool {
    let ok = Ok::<(), DecodeError<S>>(());
    match v.type_name {
        None => match v.literal.value {
            Literal::String(s) => same(a, b) && r == utf8(s@),
            _ => wants(Kind::String, v.literal, a, b, ok),
        },
        Some(t) => if t.value.0 == TypeNameInner::Builtin(BuiltinType::Base64) {
            match v.literal.value {
                Literal::String(s) => match base64_std(utf8(s@)) {
                    Some(x) => same(a, b) && r == x,
                    None => rejects(v.literal, a, b, ok),
                },
                _ => wants(Kind::String, v.literal, a, b, ok),
            }
        } else {
            one_error(a, b, ok) && name_error(b.errors@.last(), t,
                seq![TypeName(TypeNameInner::Builtin(BuiltinType::Base64))], "bytes"@)
        },
    }
}
}""")
    u.text("""verus!{
/// one error for each argument, property and child, in that order
pub open spec fn flag_errors<S: ErrorSpan>(n: Node<S>) -> int {
    n.arguments@.len() + n.properties@.len() + match n.children { Some(c) => c.value@.len() as int, None => 0 }
}
pub open spec fn flag_error_ok<S: ErrorSpan>(n: Node<S>, k: int, e: DecodeError<S>) -> bool {
    let na = n.arguments@.len() as int; let np = n.properties@.len() as int;
    if k < na { unexpected(e, n.arguments@[k].literal.span, "argument"@) }
    else if k < na + np { unexpected(e, n.properties@[k - na].0.span, "property"@) }
    else { n.children is Some && unexpected(e, n.children->0.value@[k - na - np].span, "node"@) }
}
pub open spec fn flag_upto<S: ErrorSpan>(n: Node<S>, a: Context<S>, b: Context<S>, k: int) -> bool {
    &&& b.errors@.len() == a.errors@.len() + k
    &&& b.extensions@ == a.extensions@
    &&& a.errors@ =~= b.errors@.take(a.errors@.len() as int)
    &&& forall|i: int| 0 <= i < k ==> flag_error_ok(n, i, #[trigger] b.errors@[a.errors@.len() + i])
}
}""")
    inv = lambda extra: """invariant flag_upto(node.value, *old(ctx), *ctx, %s),""" % extra
    u.fn("decode.rs", "check_flag_node", """
    ensures flag_upto(node.value, *old(ctx), *final(ctx), flag_errors(node.value)), grows(*old(ctx), *final(ctx))""",
         props=["C19", "C17", "C23"], loops=[
             {"iter": "it", "inv": inv("it.index()") + " it.seq().len() == node.value.arguments@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == node.value.arguments@[i],"},
             {"iter": "it", "inv": inv("node.value.arguments@.len() + it.index()") + " it.seq().len() == node.value.properties@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == node.value.properties@[i],"},
             {"iter": "it", "inv": inv("node.value.arguments@.len() + node.value.properties@.len() + it.index()") + " node.value.children is Some, *children == node.value.children->0, it.seq().len() == children.value@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == children.value@[i],"},
         ])
    u.fn("decode.rs", "node", """
    ensures node_rel::<T, S>(*ast, ret)""", props=["C02"])
    u.items.insert(len(u.items) - 1, """verus!{
/// success means no error at all; a failure lists all of them, the one that
/// stopped the decoder last
pub open spec fn outcome<T, S: ErrorSpan>(c: Context<S>, r: Res<T, S>, ok: Option<T>, errors: Seq<DecodeError<S>>) -> bool {
    if r is Ok && c.errors@.len() == 0 { ok == Some(r->Ok_0) } else { ok is None && errors == all_errors(c, r) }
}
pub open spec fn empty_context<S: ErrorSpan>(c: Context<S>) -> bool {
    c.errors@.len() == 0 && c.extensions@ == Map::<TypeId, AnyBox>::empty()
}
pub open spec fn node_rel<T: Decode<S>, S: ErrorSpan>(n: SpannedNode<S>, ret: Result<T, Vec<DecodeError<S>>>) -> bool {
    exists|c0: Context<S>, c: Context<S>, r: Res<T, S>| empty_context(c0) && #[trigger] T::dn(n, c0, c, r)
        && outcome(c, r, match ret { Ok(v) => Some(v), Err(_) => None }, match ret { Ok(_) => Seq::empty(), Err(e) => e@ })
}
}""")
    # ---- containers
    u.text("""verus!{
/// the value inside a pointer, `Ok` or the same error
pub open spec fn boxed<T, S: ErrorSpan>(q: Res<T, S>) -> Res<Box<T>, S> { match q { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) } }
pub open spec fn arced<T, S: ErrorSpan>(q: Res<T, S>) -> Res<Arc<T>, S> { match q { Ok(x) => Ok(Arc::new(x)), Err(e) => Err(e) } }
pub open spec fn rced<T, S: ErrorSpan>(q: Res<T, S>) -> Res<Rc<T>, S> { match q { Ok(x) => Ok(Rc::new(x)), Err(e) => Err(e) } }
pub open spec fn optional<T, S: ErrorSpan>(q: Res<T, S>) -> Res<Option<T>, S> { match q { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
/// no other handle to the value exists
pub uninterp spec fn arc_sole<T>(a: Arc<T>) -> bool;
pub uninterp spec fn rc_sole<T>(a: Rc<T>) -> bool;
#[verifier::external_body]
pub fn arc_get_mut<T>(a: &mut Arc<T>) -> (r: Option<&mut T>)
    ensures arc_sole(*old(a)) ==> r is Some,
        r is Some ==> *(r->0) == **old(a) && *final(r->0) == **final(a) && arc_sole(*final(a)),
        r is None ==> *final(a) == *old(a)
{ Arc::get_mut(a) }
#[verifier::external_body]
pub fn rc_get_mut<T>(a: &mut Rc<T>) -> (r: Option<&mut T>)
    ensures rc_sole(*old(a)) ==> r is Some,
        r is Some ==> *(r->0) == **old(a) && *final(r->0) == **final(a) && rc_sole(*final(a)),
        r is None ==> *final(a) == *old(a)
{ Rc::get_mut(a) }
}""")
    NODE, NODES = "node: SpannedNode<S>", "nodes: Seq<SpannedNode<S>>"
    CTX = "c0: Context<S>, c1: Context<S>"
    u.subs += [("Arc::get_mut(", "arc_get_mut("), ("Rc::get_mut(", "rc_get_mut(")]
    for P, f, sole in (("Box", "boxed", ""), ("Arc", "arced", "arc_sole(*self) && "),
                       ("Rc", "rced", "rc_sole(*self) && ")):
        me = "%s<T>" % P
        u.open("impl<S: ErrorSpan, T: Decode<S>> Decode<S> for %s {" % me, """
    open spec fn dn(%s, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>| #[trigger] T::dn(node, c0, c1, q) && r == %s(q) }""" % (NODE, CTX, f))
        u.fn("containers.rs", "<Decode<S> for %s>::decode_node" % me, props=["C20"])
        u.close()
        u.open("impl<S: ErrorSpan, T: DecodeChildren<S>> DecodeChildren<S> for %s {" % me, """
    open spec fn dc(%s, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>| #[trigger] T::dc(nodes, c0, c1, q) && r == %s(q) }""" % (NODES, CTX, f))
        u.fn("containers.rs", "<DecodeChildren<S> for %s>::decode_children" % me, props=["C20"])
        u.close()
        u.open("impl<S: ErrorSpan, T: DecodePartial<S>> DecodePartial<S> for %s {" % me, """
    open spec fn owned(&self) -> bool { %s(**self).owned() }
    open spec fn ic(a: Self, %s, %s, b: Self, r: Res<bool, S>) -> bool { T::ic(*a, node, c0, c1, *b, r) }
    open spec fn ip(a: Self, name: Spanned<Box<str>, S>, v: Value<S>, %s, b: Self, r: Res<bool, S>) -> bool { T::ip(*a, name, v, c0, c1, *b, r) }
    """ % (sole, NODE, CTX, CTX))
        for m in ("insert_child", "insert_property"):
            u.fn("containers.rs", "<DecodePartial<S> for %s>::%s" % (me, m), props=["C18", "C20"])
        u.close()
        u.open("impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for %s {" % me, """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, %s) -> bool { T::tc(tn, c0, c1) }
    open spec fn rd(v: Spanned<Literal, S>, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>| #[trigger] T::rd(v, c0, c1, q) && r == %s(q) }
    open spec fn ds(v: Value<S>, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>| #[trigger] T::ds(v, c0, c1, q) && r == %s(q) }
    open spec fn raw_ok() -> bool { T::raw_ok() }""" % (CTX, CTX, f, CTX, f))
        for m in ("type_check", "raw_decode", "decode"):
            u.fn("containers.rs", "<DecodeScalar<S> for %s>::%s" % (me, m), props=["C20", "C13"])
        u.close()
    u.text("""verus!{
/// each node is decoded, in order; one that fails leaves its error and no item
pub open spec fn decodes_all<T: Decode<S>, S: ErrorSpan>(nodes: Seq<SpannedNode<S>>, c0: Context<S>, c1: Context<S>, out: Seq<T>) -> bool
    decreases nodes.len()
{
    if nodes.len() == 0 { same(c0, c1) && out.len() == 0 }
    else {
        exists|m: Context<S>, c: Context<S>, q: Res<T, S>| #[trigger] T::dn(nodes.last(), m, c, q)
            && c1.errors@ =~= all_errors(c, q) && c1.extensions@ == c.extensions@
            && match q {
                Ok(x) => out.len() > 0 && out.last() == x && decodes_all::<T, S>(nodes.drop_last(), c0, m, out.drop_last()),
                Err(_) => decodes_all::<T, S>(nodes.drop_last(), c0, m, out),
            }
    }
}
pub open spec fn node_step<T, S: ErrorSpan>(c: Context<S>, q: Res<T, S>, c1: Context<S>, rest: Seq<T>, out: Seq<T>) -> bool {
    c1.errors@ =~= all_errors(c, q) && c1.extensions@ == c.extensions@
    && out =~= match q { Ok(x) => rest.push(x), Err(_) => rest }
}
pub proof fn decode_step<T: Decode<S>, S: ErrorSpan>(nodes: Seq<SpannedNode<S>>, k: int, c0: Context<S>, m: Context<S>, c1: Context<S>, rest: Seq<T>, out: Seq<T>)
    requires 0 <= k < nodes.len(), decodes_all::<T, S>(nodes.take(k), c0, m, rest),
        exists|c: Context<S>, q: Res<T, S>| #[trigger] T::dn(nodes[k], m, c, q) && node_step(c, q, c1, rest, out),
    ensures decodes_all::<T, S>(nodes.take(k + 1), c0, c1, out)
{
    let t = nodes.take(k + 1);
    assert(t.drop_last() =~= nodes.take(k));
    assert(t.last() == nodes[k]);
    let (c, q) = choose|c: Context<S>, q: Res<T, S>| #[trigger] T::dn(nodes[k], m, c, q) && node_step(c, q, c1, rest, out);
    assert(T::dn(t.last(), m, c, q));
    if q is Ok { assert(out.drop_last() =~= rest); } else { assert(out =~= rest); }
}
}""")
    u.open("impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {", """
    open spec fn dc(%s, %s, r: Res<Self, S>) -> bool { r is Ok && decodes_all::<T, S>(nodes, c0, c1, r->Ok_0@) }""" % (NODES, CTX))
    u.fn("containers.rs", "<DecodeChildren<S> for Vec<T>>::decode_children", props=["C20", "C02", "C17"],
         loops=[{"iter": "it", "inv": """invariant
            nodes@.len() == it.seq().len(), forall|i: int| 0 <= i < nodes@.len() ==> *(#[trigger] it.seq()[i]) == nodes@[i],
            grows(*old(ctx), *ctx), decodes_all::<T, S>(nodes@.take(it.index()), *old(ctx), *ctx, result@),""",
                 "pre": "let ghost m = *ctx; let ghost rest = result@; proof { assert(*node == nodes@[it.index()]); }",
                 "post": "proof { decode_step::<T, S>(nodes@, it.index(), *old(ctx), m, *ctx, rest, result@); }",
                 }],
         post="proof { assert(nodes@.take(nodes@.len() as int) =~= nodes@); }")
    u.close()
    u.open("impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {", """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, %s) -> bool { T::tc(tn, c0, c1) }
    open spec fn rd(v: Spanned<Literal, S>, %s, r: Res<Self, S>) -> bool {
        if v.value is Null { gives(None::<T>, c0, c1, r) }
        else { exists|q: Res<T, S>| #[trigger] T::rd(v, c0, c1, q) && r == optional(q) } }
    open spec fn ds(v: Value<S>, %s, r: Res<Self, S>) -> bool {
        if v.literal.value is Null { T::tc(v.type_name, c0, c1) && r == Ok::<Option<T>, DecodeError<S>>(None) }
        else { exists|q: Res<T, S>| #[trigger] T::ds(v, c0, c1, q) && r == optional(q) } }
    open spec fn raw_ok() -> bool { T::raw_ok() }""" % (CTX, CTX, CTX))
    for m in ("type_check", "raw_decode", "decode"):
        u.fn("containers.rs", "<DecodeScalar<S> for Option<T>>::%s" % m, props=["C15", "C20", "C13"])
    u.close()
    u.open("impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q> where S: Span, Q: DecodeSpan<S> {", """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, %s) -> bool { T::tc(tn, c0, c1) }
    open spec fn rd(v: Spanned<Literal, S>, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>, m: Context<S>| #[trigger] T::rd(v, c0, m, q) && positioned(v.span, m, c1, q, r) }
    open spec fn ds(v: Value<S>, %s, r: Res<Self, S>) -> bool {
        exists|q: Res<T, S>, m: Context<S>| #[trigger] T::ds(v, c0, m, q) && positioned(v.literal.span, m, c1, q, r) }
    open spec fn raw_ok() -> bool { T::raw_ok() }""" % (CTX, CTX, CTX))
    for m in ("type_check", "raw_decode", "decode"):
        u.fn("containers.rs", "<DecodeScalar<S> for Spanned<T,Q>>::%s" % m, props=["C20", "C13"])
    u.close()
    u.items.insert(len(u.items) - 5, """verus!{
/// the value keeps the position of the literal
pub open spec fn positioned<T, Q: DecodeSpan<S>, S: ErrorSpan>(at: S, m: Context<S>, c1: Context<S>, q: Res<T, S>, r: Res<Spanned<T, Q>, S>) -> bool {
    match q {
        Ok(x) => r is Ok && r->Ok_0.value == x && Q::sp(at, m, c1, r->Ok_0.span),
        Err(e) => r == Err::<Spanned<T, Q>, DecodeError<S>>(e) && c1 == m,
    }
}
}""")
    # ---- raw documents
    u.text("""verus!{
pub open spec fn conv<S: ErrorSpan, T: DecodeSpan<S>>(s: S, t: T) -> bool {
    exists|c0: Context<S>, c1: Context<S>| #[trigger] T::sp(s, c0, c1, t)
}
/// as `conv` for those spans that are kept as they are
pub proof fn kept<S: ErrorSpan>(s: S, t: S)
    ensures conv::<S, S>(s, t) ==> s == t
{}
pub open spec fn copied_value<S: ErrorSpan, T: DecodeSpan<S>>(v: Value<S>, r: Value<T>) -> bool {
    &&& r.literal.value == v.literal.value && conv(v.literal.span, r.literal.span)
    &&& match v.type_name { None => r.type_name is None,
        Some(n) => r.type_name is Some && r.type_name->0.value == n.value && conv(n.span, r.type_name->0.span) }
}
pub open spec fn copied_node<S: ErrorSpan, T: DecodeSpan<S>>(n: Node<S>, r: Node<T>) -> bool decreases n {
    &&& match n.type_name { None => r.type_name is None,
        Some(t) => r.type_name is Some && r.type_name->0.value == t.value && conv(t.span, r.type_name->0.span) }
    &&& r.node_name.value == n.node_name.value && conv(n.node_name.span, r.node_name.span)
    &&& r.arguments@.len() == n.arguments@.len()
    &&& forall|i: int| 0 <= i < n.arguments@.len() ==> copied_value(n.arguments@[i], #[trigger] r.arguments@[i])
    &&& r.properties@.len() == n.properties@.len()
    &&& forall|i: int| 0 <= i < n.properties@.len() ==> copied_prop(n.properties@[i], #[trigger] r.properties@[i])
    &&& match n.children { None => r.children is None,
        Some(c) => r.children is Some && conv(c.span, r.children->0.span) && r.children->0.value@.len() == c.value@.len()
            && forall|i: int| 0 <= i < c.value@.len() ==>
                conv(c.value[i].span, (#[trigger] r.children->0.value@[i]).span) && copied_node(c.value[i].value, r.children->0.value@[i].value) }
}
pub open spec fn copied_prop<S: ErrorSpan, T: DecodeSpan<S>>(p: (SpannedName<S>, Value<S>), r: (SpannedName<T>, Value<T>)) -> bool {
    r.0.value == p.0.value && conv(p.0.span, r.0.span) && copied_value(p.1, r.1)
}
pub open spec fn names_of<S>(s: Seq<(SpannedName<S>, Value<S>)>) -> Seq<Seq<char>> {
    s.map_values(|p: (SpannedName<S>, Value<S>)| p.0.value@)
}
/// std: a BTreeMap lists its keys in ascending order and, built from such a
/// list, holds just that list
pub axiom fn map_is_ascending<S>(m: PMap<SpannedName<S>, Value<S>>) ensures ascending(names_of(m@));
#[verifier::external_body]
pub fn collect_map<S>(v: Vec<(SpannedName<S>, Value<S>)>) -> (r: PMap<SpannedName<S>, Value<S>>)
    ensures ascending(names_of(v@)) ==> r@ == v@
{ unimplemented!() }
/// C20: with its own kind of positions a node is given back unchanged
pub open spec fn equal_value<S>(a: Value<S>, b: Value<S>) -> bool { a == b }
pub open spec fn equal_node<S>(a: Node<S>, b: Node<S>) -> bool decreases a {
    &&& a.type_name == b.type_name && a.node_name == b.node_name
    &&& a.arguments@ == b.arguments@ && a.properties@ == b.properties@
    &&& match a.children { None => b.children is None, Some(c) => b.children is Some && b.children->0.span == c.span
        && b.children->0.value@.len() == c.value@.len()
        && forall|i: int| 0 <= i < c.value@.len() ==> (#[trigger] c.value[i]).span == b.children->0.value@[i].span && equal_node(c.value[i].value, b.children->0.value@[i].value) }
}
pub proof fn raw_is_identity<S: ErrorSpan>(a: Node<S>, b: Node<S>)
    requires copied_node::<S, S>(a, b)
    ensures equal_node(a, b)
    decreases a
{
    assert(forall|s: S, t: S| #[trigger] conv::<S, S>(s, t) ==> s == t);
    assert forall|i: int| 0 <= i < a.arguments@.len() implies a.arguments@[i] == b.arguments@[i] by {
        assert(copied_value::<S, S>(a.arguments@[i], b.arguments@[i]));
    }
    assert(a.arguments@ =~= b.arguments@);
    assert forall|i: int| 0 <= i < a.properties@.len() implies a.properties@[i] == b.properties@[i] by {
        assert(copied_prop::<S, S>(a.properties@[i], b.properties@[i]));
    }
    assert(a.properties@ =~= b.properties@);
    if let Some(c) = a.children {
        let d = b.children->0;
        assert forall|i: int| 0 <= i < c.value@.len() implies (#[trigger] c.value[i]).span == d.value@[i].span && equal_node(c.value[i].value, d.value@[i].value) by {
            assert(conv::<S, S>(c.value[i].span, d.value@[i].span));
            raw_is_identity(c.value[i].value, d.value@[i].value);
        }
    }
}
}""")
    u.fn("span.rs", "<Spanned<T,S>>::clone_as", """
    ensures ret.value == self.value, U::sp(self.span, *old(ctx), *final(ctx), ret.span), grows(*old(ctx), *final(ctx)),
        U::silent() ==> same(*old(ctx), *final(ctx))""", wrap=SP, props=["C20"],
         sigsub=[("T: Clone", "T: MClone")])
    u.text("""verus!{
pub fn opt_clone_as<S: ErrorSpan, T: DecodeSpan<S>>(o: &Option<Spanned<TypeName, S>>, ctx: &mut Context<S>) -> (ret: Option<Spanned<TypeName, T>>)
    ensures grows(*old(ctx), *final(ctx)), T::silent() ==> same(*old(ctx), *final(ctx)),
        match *o { None => ret is None, Some(n) => ret is Some && ret->0.value == n.value && conv(n.span, ret->0.span) }
{ match o.as_ref() { Some(n) => Some(n.clone_as(ctx)), None => None } }
}""")
    OPT = (re.compile(r"([\w.]+)\.as_ref\(\)\.map\(\|n\| n\.clone_as\(ctx\)\)"), r"opt_clone_as(&\1, ctx)")
    u.open("impl<S, T> DecodeScalar<S> for Value<T> where S: Span, T: DecodeSpan<S> {", """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, %s) -> bool { same(c0, c1) }
    open spec fn rd(v: Spanned<Literal, S>, %s, r: Res<Self, S>) -> bool { false }
    open spec fn ds(v: Value<S>, %s, r: Res<Self, S>) -> bool {
        r is Ok && copied_value(v, r->Ok_0) && (T::silent() ==> same(c0, c1)) }
    open spec fn raw_ok() -> bool { false }
    /// panics: shown never to be called
    #[verifier::external_body]
    fn raw_decode(_value: &Spanned<Literal, S>, _ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> { unimplemented!() }
    """ % (CTX, CTX, CTX))
    u.fn("convert_ast.rs", "<DecodeScalar<S> for Value<T>>::type_check", props=["C20", "C13"])
    u.fn("convert_ast.rs", "<DecodeScalar<S> for Value<T>>::decode", props=["C20", "C13"], subs=[OPT])
    u.close()
    u.open("impl<S> DecodeScalar<S> for Literal where S: Span {", """
    open spec fn tc(tn: Option<Spanned<TypeName, S>>, %s) -> bool { same(c0, c1) }
    open spec fn rd(v: Spanned<Literal, S>, %s, r: Res<Self, S>) -> bool { gives(v.value, c0, c1, r) }
    open spec fn ds(v: Value<S>, %s, r: Res<Self, S>) -> bool { exists|m: Context<S>| #[trigger] Self::tc(v.type_name, c0, m) && Self::rd(v.literal, m, c1, r) }
    open spec fn raw_ok() -> bool { true }""" % (CTX, CTX, CTX))
    for m in ("type_check", "raw_decode"):
        u.fn("convert_ast.rs", "<DecodeScalar<S> for Literal>::%s" % m, props=["C20", "C13"])
    u.fn("traits.rs", "trait DecodeScalar::decode", props=["C20"])
    u.close()
    u.text("""verus!{
pub fn done<T, S: ErrorSpan>(r: Result<T, DecodeError<S>>) -> (x: Result<T, DecodeError<S>>) ensures x == r { r }
}""")
    SEQ = lambda src, rel: """invariant it.seq().len() == %s.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == %s[i],
        out@.len() == it.index(), grows(*old(ctx), *ctx), T::silent() ==> same(*old(ctx), *ctx),
        forall|i: int| 0 <= i < out@.len() ==> %s,""" % (src, src, rel)
    def raw_node(body):
        body = apply_subs(body, [OPT])
        return inline_maps(body, [
            ("Vec<Value<T>>", SEQ("node.value.arguments@", "copied_value(node.value.arguments@[i], #[trigger] out@[i])"), "", "", "out"),
            ("Vec<(SpannedName<T>, Value<T>)>", SEQ("node.value.properties@", "copied_prop(node.value.properties@[i], #[trigger] out@[i])"), "", "",
             "proof { map_is_ascending(node.value.properties); assert(names_of(out@) =~= names_of(node.value.properties@)); } collect_map(out)"),
            ("Vec<SpannedNode<T>>", SEQ("sc.value@", "conv(sc.value[i].span, (#[trigger] out@[i]).span) && copied_node(sc.value[i].value, out@[i].value)")
             + " *sc == node0.value.children->0, node0.value.children is Some,",
             "proof { let i = it.index(); assert(*node == sc.value[i]); assert(decreases_to!(sc.value => sc.value[i])); assert(decreases_to!(node0 => node0.value.children->0)); assert(decreases_to!(node0 => sc.value[i])); }", "", "out"),
        ])
    u.open("impl<S, T> Decode<S> for Node<T> where S: Span, T: DecodeSpan<S> {", """
    open spec fn dn(%s, %s, r: Res<Self, S>) -> bool {
        r is Ok && copied_node(node.value, r->Ok_0) && (T::silent() ==> same(c0, c1)) }""" % (NODE, CTX))
    u.fn("convert_ast.rs", "<Decode<S> for Node<T>>::decode_node", "decreases *node", props=["C20"],
         xform=raw_node, pre="let ghost node0 = *node;", subs=[("node.properties.iter()", "node.properties.items().iter()")])
    u.close()
    u.open("impl<S, T> Decode<S> for SpannedNode<T> where S: Span, T: DecodeSpan<S> {", """
    open spec fn dn(%s, %s, r: Res<Self, S>) -> bool {
        r is Ok && copied_node(node.value, r->Ok_0.value) && conv(node.span, r->Ok_0.span) && (T::silent() ==> same(c0, c1)) }""" % (NODE, CTX))
    u.fn("convert_ast.rs", "<Decode<S> for SpannedNode<T>>::decode_node", props=["C20"])
    u.close()
    # ---- elements behave as their values (C22)
    SUBS = [("std::cmp::", ""), ("std::hash::Hasher", "MHasher"), ("std::hash::Hash", "MHash"),
            (".hash(state)", ".mhash(state)")]
    def el(g, name, contract, rename, **k):
        u.fn("span.rs", name, contract, wrap=("impl%s Spanned<T, S> {" % g, "}"),
             rename=rename, props=["C22"], sigsub=SUBS, subs=SUBS, **k)
    u.text("verus!{ use std::cmp::Ordering; }")
    el("<S, T: PartialEq<T>>", "<PartialEq for Spanned<T,S>>::eq",
       "ensures call_ensures(<T as PartialEq<T>>::eq, (&self.value, &other.value), ret)", "spanned_eq")
    el("<S, T: PartialOrd<T>>", "<PartialOrd for Spanned<T,S>>::partial_cmp",
       "ensures call_ensures(<T as PartialOrd<T>>::partial_cmp, (&self.value, &other.value), ret)", "spanned_partial_cmp")
    el("<S, T: Ord>", "<Ord for Spanned<T,S>>::cmp",
       "ensures call_ensures(<T as Ord>::cmp, (&self.value, &other.value), ret)", "spanned_cmp")
    el("<S, T: MHash>", "<MHash for Spanned<T,S>>::hash".replace("MHash", "std::hash::Hash"),
       "ensures self.value.hashed(*old(state), *final(state))", "spanned_hash")
    u.fn("span.rs", "<std::borrow::Borrow<T> for Spanned<T,S>>::borrow", "ensures *ret == self.value",
         wrap=SP, rename="spanned_borrow", props=["C22"], subs=[(".borrow()", ".mborrow()")])
    u.fn("span.rs", "<std::borrow::Borrow<T> for Spanned<Box<T>,S>>::borrow", "ensures ret@ == self.value@",
         wrap=("impl<S> Spanned<Box<str>, S> {", "}"), rename="spanned_box_borrow", props=["C22"],
         sigsub=[("-> (ret: &T)", "-> (ret: &str)")], subs=[("self.value.borrow()", "box_borrow(&self.value)")])
    u.fn("span.rs", "<Spanned<T,S>>::map",
         "requires f.requires((self.value,)) ensures ret.span == self.span, f.ensures((self.value,), ret.value)",
         wrap=SP, props=["C20"])
    u.fn("span.rs", "<Spanned<T,S>>::map_span",
         "requires f.requires((self.span,)) ensures ret.value == self.value, f.ensures((self.span,), ret.span)",
         wrap=SP, props=["C20"])
    # ---- entry points
    u.type("span.rs", "Span", subs=[("struct Span", "struct ByteSpan")])
    u.type("span.rs", "LineSpan")
    u.type("span.rs", "LinePos", attrs="#[derive(Clone, Copy)]")
    u.text("""verus!{
impl MClone for ByteSpan { fn mclone(&self) -> Self { ByteSpan(self.0, self.1) } }
impl MClone for LineSpan { fn mclone(&self) -> Self { LineSpan(self.0, self.1) } }
impl ErrorSpan for ByteSpan {} impl Span for ByteSpan {}
impl ErrorSpan for LineSpan {} impl Span for LineSpan {}
}""")
    u.open("impl DecodeSpan<LineSpan> for ByteSpan {", """
    open spec fn silent() -> bool { true }
    open spec fn sp(span: LineSpan, c0: Context<LineSpan>, c1: Context<LineSpan>, r: ByteSpan) -> bool {
        same(c0, c1) && r.0 == span.0.offset && r.1 == span.1.offset }""")
    u.fn("span.rs", "<traits::DecodeSpan<LineSpan> for Span>::decode_span", props=["C20", "C11"],
         sigsub=SIG_, subs=[(re.compile(r"(?<!\w)Span\("), "ByteSpan(")])
    u.close()
    u.type("errors.rs", "Error", subs=pubs("source_code", "errors") + [("miette::", "")])
    u.text("""verus!{
/// what the grammar makes of a text (see the grammar unit)
pub uninterp spec fn syntax<S: Span>(text: Seq<char>) -> Result<Document<S>, Vec<ParseError<S>>>;
#[verifier::external_body]
pub fn syntax_parse<S: Span>(text: &str) -> (r: Result<Document<S>, Vec<ParseError<S>>>)
    ensures r == syntax::<S>(text@)
{ unimplemented!() }
#[verifier::external_body]
pub fn to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// names the source, holds its text, and each error once, in order
pub open spec fn error_of<E>(r: Error, name: Seq<char>, text: Seq<char>, es: Seq<E>) -> bool {
    r.source_code.name@ == name && r.source_code.text@ == text && r.errors@ =~= es.map_values(|e: E| report_of(e))
}
#[verifier::prophetic]
pub open spec fn parse_rel<T: DecodeChildren<S>, S: Span, F: FnOnce(&mut Context<S>)>(name: Seq<char>, text: Seq<char>, set: F, ret: Result<T, Error>) -> bool {
    match syntax::<S>(text) {
        Err(es) => ret is Err && error_of(ret->Err_0, name, text, es@),
        Ok(doc) => exists|m: &mut Context<S>, c: Context<S>, r: Res<T, S>|
            empty_context(*m) && #[trigger] call_ensures(set, (m,), ()) && #[trigger] T::dc(doc.nodes@, *final(m), c, r)
            && match ret {
                Ok(v) => r == Ok::<T, DecodeError<S>>(v) && c.errors@.len() == 0,
                Err(e) => (r is Err || c.errors@.len() > 0) && error_of(e, name, text, all_errors(c, r)),
            },
    }
}
}""")
    WS = [("DecodeChildren<Span>", "DecodeChildren<ByteSpan>"),
          (re.compile(r"grammar::document\(\)\s*\.parse\(S::stream\((\w+)\)\)"), r"syntax_parse::<S>(\1)"),
          ("text.to_string()", "to_string(text)"),
          ("errors.into_iter().map(Into::into).collect()", "reports(errors)")]
    u.fn("wrappers.rs", "parse_ast", """
    ensures match syntax::<S>(text@) { Ok(d) => ret == Ok::<Document<S>, Error>(d), Err(es) => ret is Err && error_of(ret->Err_0, file_name@, text@, es@) }""",
         props=["C02"], subs=WS, sigsub=WS,
         closures=[{"params": "errors: Vec<ParseError<S>>", "ret": "(e: Error)", "ens": "error_of(e, file_name@, text@, errors@)"}])
    u.fn("wrappers.rs", "parse_with_context", """
    requires forall|m: &mut Context<S>| #[trigger] call_requires(set_ctx, (m,))
    ensures parse_rel::<T, S, F>(file_name@, text@, set_ctx, ret)""", props=["C02", "C21"], subs=WS, sigsub=WS)
    u.fn("wrappers.rs", "parse", """
    ensures plain_rel::<T>(file_name@, text@, ret)""", props=["C02"], subs=WS, sigsub=WS,
         closures=[{"params": "c: &mut Context<ByteSpan>", "ret": "(r: ())", "ens": "same(*old(c), *final(c))"}])
    u.items.insert(len(u.items) - 1, """verus!{
pub open spec fn plain_rel<T: DecodeChildren<ByteSpan>>(name: Seq<char>, text: Seq<char>, ret: Result<T, Error>) -> bool {
    match syntax::<ByteSpan>(text) {
        Err(es) => ret is Err && error_of(ret->Err_0, name, text, es@),
        Ok(doc) => exists|c0: Context<ByteSpan>, c: Context<ByteSpan>, r: Res<T, ByteSpan>|
            empty_context(c0) && #[trigger] T::dc(doc.nodes@, c0, c, r)
            && match ret {
                Ok(v) => r == Ok::<T, DecodeError<ByteSpan>>(v) && c.errors@.len() == 0,
                Err(e) => (r is Err || c.errors@.len() > 0) && error_of(e, name, text, all_errors(c, r)),
            },
    }
}
}""")
    return u
