"""Planted bugs, each written from the text of a property."""
HEAD = '''use knuffel::ast::*;
use knuffel::span::*;
fn ast(t: &str) -> Result<Document<Span>, knuffel::Error> { knuffel::parse_ast::<Span>("x.kdl", t) }
fn last(t: &str) -> Literal { (*ast(t).unwrap().nodes[0].arguments.last().unwrap().literal).clone() }
'''
SEEDS = {}

SEEDS["crlf-tracking"] = dict(
    property="C11", needs="a lone CR on some line followed later by a LF",
    breaks="line numbers after a CR that is not followed at once by LF are one too small",
    edits=[("src/span.rs", """            '\\n' if self.caret_return => {}
            '\\r'|'\\n'|'\\x0C'|'\\u{0085}'|'\\u{2028}'|'\\u{2029}' => {
                self.line += 1;
                self.column = 0;
            }
            '\\t' => self.column""", """            '\\n' if self.caret_return => {
                self.caret_return = false;
            }
            '\\r'|'\\n'|'\\x0C'|'\\u{0085}'|'\\u{2028}'|'\\u{2029}' => {
                self.line += 1;
                self.column = 0;
                self.caret_return = c == '\\r';
            }
            '\\t' => self.column"""),
           ("src/span.rs", "        self.caret_return = c == '\\r';\n        LineSpan(\n", "        LineSpan(\n")],
    demo='''use knuffel::span::LineSpan;
fn main() {
    let d = knuffel::parse_ast::<LineSpan>("x", "a\\rb\\nc\\nd").unwrap();
    let lines: Vec<_> = d.nodes.iter().map(|n| n.span().0.line).collect();
    assert_eq!(lines, [0, 1, 2, 3]);
}
''')

SEEDS["unicode-escape-long"] = dict(
    property="C03", needs="a \\u escape with seven or eight hex digits",
    breaks="escapes with more than six digits are accepted",
    edits=[("src/grammar.rs", ".at_most(6)", ".at_most(8)")],
    demo=HEAD + r'''fn main() {
    assert!(ast(r#"n "\u{0000041}""#).is_err());
    assert!(matches!(last(r#"n "\u{000041}""#), Literal::String(s) if &*s == "A"));
}
''')

SEEDS["radix-plus-sign"] = dict(
    property="C04", needs="a number with a radix prefix and a plus sign",
    breaks="the plus sign of hexadecimal, octal and binary numbers is lost",
    edits=[("src/grammar.rs", "        sign.map(|c| s.push(c));\n",
            "        if sign == Some('-') {\n            s.push('-');\n        }\n")],
    demo='''use knuffel::ast::*;
use knuffel::span::Span;
fn main() {
    for t in ["n +0x1F", "n +0b1_0", "n +0o17", "n -0x1F", "n 0x1F"] {
        let d = knuffel::parse_ast::<Span>("x", t).unwrap();
        let l = format!("{:?}", d.nodes[0].arguments[0].literal);
        assert_eq!(l.contains('+'), t.contains('+'), "{}", l);
        assert_eq!(l.contains("\\"-"), t.contains('-'), "{}", l);
        let _ = Literal::Null;
    }
}
''')

SEEDS["continuation-comment"] = dict(
    property="C07", needs="two or more pieces of whitespace or comments between a backslash and the end of the line",
    breaks="a line continuation followed by a space and a block comment is rejected",
    edits=[("src/grammar.rs", "        .ignore_then(ws().repeated())\n        .ignore_then(comment().or(newline()))",
            "        .ignore_then(ws().or_not())\n        .ignore_then(comment().or(newline()))")],
    demo=HEAD + r'''fn main() {
    for t in ["n \\ /* c */\n 1", "n \\/* c */ // x\n 1", "n \\ \n 1", "n \\\n 1"] {
        assert!(matches!(last(t), Literal::Int(_)), "{}", t);
    }
}
''')

SEEDS["first-property-wins"] = dict(
    property="C08", needs="a property given twice on the same node with another in between",
    breaks="the first value of a repeated property is kept instead of the last",
    edits=[("src/grammar.rs", "                            node.properties.insert(name, value);\n",
            "                            node.properties.entry(name)\n                                .or_insert(value);\n")],
    demo=HEAD + r'''fn main() {
    let d = ast("n a=1 b=2 a=\"z\"").unwrap();
    assert!(matches!(&*d.nodes[0].properties["a"].literal, Literal::String(s) if &**s == "z"));
    assert!(matches!(&*d.nodes[0].properties["b"].literal, Literal::Int(_)));
}
''')

SEEDS["nbsp-space"] = dict(
    property="C06", needs="a narrow or medium space character (U+202F, U+205F) as a separator",
    breaks="U+205F is no longer whitespace",
    edits=[("src/grammar.rs", """        '\\u{2000}'..='\\u{200A}' |
        '\\u{202F}' | '\\u{205F}' | '\\u{3000}' |
        '\\u{FEFF}'
    ))
    .ignored()""", """        '\\u{2000}'..='\\u{200A}' |
        '\\u{202F}' | '\\u{2060}' | '\\u{3000}' |
        '\\u{FEFF}'
    ))
    .ignored()""")],
    demo=HEAD + r'''fn main() {
    for c in ['\t', ' ', '\u{a0}', '\u{1680}', '\u{2000}', '\u{200A}', '\u{202F}', '\u{205F}', '\u{3000}', '\u{FEFF}'] {
        assert!(ast(&format!("n{}1", c)).is_ok(), "{:?}", c);
    }
    assert!(ast("n\u{2060}1").unwrap().nodes[0].arguments.is_empty());
}
''')

del SEEDS["unicode-escape-long"], SEEDS["radix-plus-sign"]

SEEDS["surrogate-escape"] = dict(
    property="C03", needs="a \\u escape naming a surrogate or a number above 10FFFF",
    breaks="escapes that name no character are accepted as U+FFFD",
    edits=[("src/grammar.rs", "char::try_from(n).map_err(|e| e.to_string())",
            "if (0xD800..0xE000).contains(&n) { Ok('\\u{FFFD}') } else { char::try_from(n).map_err(|e| e.to_string()) }")],
    demo=HEAD + r"""fn main() {
    assert!(ast("n \"\\u{d800}\"").is_err());
    assert!(ast("n \"\\u{dfff}\"").is_err());
    assert!(ast("n \"\\u{110000}\"").is_err());
    assert!(matches!(last("n \"\\u{e000}\""), Literal::String(s) if &*s == "\u{e000}"));
}
""")

SEEDS["octal-digits"] = dict(
    property="C04", needs="an octal number with the digit 8 or 9 after its first digit",
    breaks="octal numbers accept the digits 8 and 9",
    edits=[("src/grammar.rs", "digit(8).chain(digits(8))", "digit(8).chain(digits(10))")],
    demo=HEAD + r"""fn main() {
    assert!(ast("n 0o18").is_err());
    assert!(ast("n 0o17").is_ok());
}
""")

DEC = '''#![allow(dead_code)]
use knuffel::span::*;
fn dec<T: knuffel::traits::DecodeChildren<Span>>(t: &str) -> Result<T, knuffel::Error> { knuffel::parse::<T>("x.kdl", t) }
'''
SEEDS["fatal-error-dropped"] = dict(
    property="C02", needs="a decoder that emits an error and then another that returns one",
    breaks="the error that stopped the decoder is not reported when others were emitted before it",
    edits=[("src/wrappers.rs", """        Err(e) => {
            ctx.emit_error(e);
            ctx.into_errors()
        }""", """        Err(_) if ctx.has_errors() => {
            ctx.into_errors()
        }
        Err(e) => {
            ctx.emit_error(e);
            ctx.into_errors()
        }""")],
    demo=DEC + '''use miette::Diagnostic;
#[derive(knuffel::Decode, Debug)]
struct Doc { #[knuffel(child)] need: Option<Need> }
#[derive(knuffel::Decode, Debug)]
struct Need { #[knuffel(argument)] a: i32, #[knuffel(argument)] b: i32 }
fn main() {
    let e = dec::<Doc>("need \\"x\\"").unwrap_err();
    assert_eq!(e.related().unwrap().count(), 2);
}
''')
SEEDS["float-double-rounding"] = dict(
    property="C05", needs="a 32-bit float whose text lies just beside the middle of two neighbours",
    breaks="32-bit floats are rounded twice, so some are not the nearest to the text",
    edits=[("src/convert.rs", "                <$typ>::from_str(&val.0)\n",
            "                <f64>::from_str(&val.0).map(|v| v as $typ)\n")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument)] a: f32 }
fn main() {
    let v = dec::<Vec<N>>("n 1.00000017881393432617187499").unwrap();
    assert_eq!(v[0].a, 1.00000017881393432617187499f32);
}
''')
SEEDS["rc-null-annotation"] = dict(
    property="C13", needs="a null with an annotation, decoded into an optional reference-counted value",
    breaks="the annotation of a null is not checked through Rc",
    edits=[("src/containers.rs", """impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
    fn type_check(type_name: &Option<Spanned<TypeName, S>>,
                  ctx: &mut Context<S>)
    {
        T::type_check(type_name, ctx)
    }""", """impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
    fn type_check(_type_name: &Option<Spanned<TypeName, S>>,
                  _ctx: &mut Context<S>)
    {
        // the inner value is checked when it is decoded
    }""")],
    demo=DEC + '''use std::rc::Rc;
#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument)] a: Option<Rc<i32>> }
fn main() {
    assert!(dec::<Vec<N>>("n (i32)null").is_ok());
    assert!(dec::<Vec<N>>("n (u8)null").is_err());
}
''')
SEEDS["base64-trailing-bits"] = dict(
    property="C14", needs="base64 text whose last character has bits that belong to no byte",
    breaks="non-canonical base64 is accepted",
    features='"base64"',
    edits=[("src/decode.rs", """                    use base64::{Engine, engine::general_purpose::STANDARD};
""", """                    use base64::{Engine, alphabet};
                    use base64::engine::general_purpose::{GeneralPurpose,
                        GeneralPurposeConfig};
                    const STANDARD: GeneralPurpose = GeneralPurpose::new(
                        &alphabet::STANDARD,
                        GeneralPurposeConfig::new()
                            .with_decode_allow_trailing_bits(true));
""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument, bytes)] a: Vec<u8> }
fn main() {
    assert_eq!(dec::<Vec<N>>("n (base64)\\"aGk=\\"").unwrap()[0].a, b"hi");
    assert!(dec::<Vec<N>>("n (base64)\\"aGl=\\"").is_err());
}
''')
SEEDS["null-bytes-empty"] = dict(
    property="C15", needs="an empty string for an optional bytes field",
    breaks="an empty string decodes into an absent value",
    edits=[("derive/src/node.rs", """                        Ok(v) => Ok(Some(v)),
                        Err(e) => {""", """                        Ok(v) => Ok(Some(v).filter(|_| !matches!(
                            &*#val.literal,
                            ::knuffel::ast::Literal::String(s)
                                if s.is_empty()))),
                        Err(e) => {""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument, bytes)] a: Option<Vec<u8>> }
fn main() {
    assert_eq!(dec::<Vec<N>>("n null").unwrap()[0].a, None);
    assert_eq!(dec::<Vec<N>>("n \\"\\"").unwrap()[0].a, Some(vec![]));
}
''')
SEEDS["default-over-null"] = dict(
    property="C16", needs="an optional property with a default, given explicitly as null",
    breaks="an explicit null is replaced by the default",
    edits=[("derive/src/node.rs", "                        if !#seen_name {\n", "                        if !#seen_name || #fld.is_none() {\n")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(property, default=Some(3))] a: Option<i32> }
fn main() {
    assert_eq!(dec::<Vec<N>>("n").unwrap()[0].a, Some(3));
    assert_eq!(dec::<Vec<N>>("n a=null").unwrap()[0].a, None);
}
''')
SEEDS["unwrap-ignores-children"] = dict(
    property="C17", needs="children inside a node whose single argument is unwrapped",
    breaks="nodes inside an unwrapped child are silently dropped",
    edits=[("derive/src/node.rs", """    let decode_children = decode_children(&common, &children,
                                          Some(quote!(#node.span())))?;
    Ok(quote! {
        let mut #func""", """    let decode_children = if object.children.is_empty()
        && object.var_children.is_none()
    {
        quote!()
    } else {
        decode_children(&common, &children, Some(quote!(#node.span())))?
    };
    Ok(quote! {
        let mut #func""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(child, unwrap(argument))] name: String }
fn main() {
    assert_eq!(dec::<N>("name \\"a\\"").unwrap().name, "a");
    assert!(dec::<N>("name \\"a\\" { stray; }").is_err());
}
''')
SEEDS["flattened-flag-arguments"] = dict(
    property="C18", needs="a flag child with arguments, declared in a flattened structure",
    breaks="a flag declared in a flattened structure accepts arguments, properties and children",
    edits=[("derive/src/node.rs", """                    ::knuffel::decode::check_flag_node(#node, #ctx);
                    if #dest {""", """                    if #dest {""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug, Default)]
struct In { #[knuffel(child)] flag: bool }
#[derive(knuffel::Decode, Debug)]
struct Out { #[knuffel(flatten(child))] inner: In }
fn main() {
    assert!(dec::<Out>("flag").unwrap().inner.flag);
    assert!(dec::<Out>("flag 1").is_err());
}
''')
SEEDS["optional-variant-children"] = dict(
    property="C19", needs="an optional payload of a variant, given by properties only",
    breaks="a variant whose payload has only properties decodes as if it had none",
    edits=[("derive/src/variants.rs", """                            #node.properties.len() > 0 ||
                            #node.children.is_some()
""", """                            #node.children.is_some()
""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct P { #[knuffel(property)] x: Option<i32> }
#[derive(knuffel::Decode, Debug)]
enum E { One(Option<P>) }
fn main() {
    let v = dec::<Vec<E>>("one x=1; one").unwrap();
    assert!(matches!(&v[0], E::One(Some(P { x: Some(1) }))));
    assert!(matches!(&v[1], E::One(None)));
}
''')
SEEDS["raw-empty-children"] = dict(
    property="C20", needs="a node with an empty children block decoded into its raw form",
    breaks="an empty children block is lost in raw nodes",
    edits=[("src/convert_ast.rs", "            children: node.children.as_ref().map(|sc| {",
            "            children: node.children.as_ref().filter(|sc| {\n                !sc.is_empty()\n            }).map(|sc| {")],
    demo=DEC + '''fn main() {
    let v = dec::<Vec<knuffel::ast::SpannedNode<Span>>>("a {}; b; c { d; }").unwrap();
    let k: Vec<_> = v.iter().map(|n| n.children.as_ref().map(|c| c.len())).collect();
    assert_eq!(k, [Some(0), None, Some(1)]);
}
''')
SEEDS["context-keeps-first"] = dict(
    property="C21", needs="two values of one type stored in the context",
    breaks="the value stored first wins",
    edits=[("src/decode.rs", "        self.extensions.insert(TypeId::of::<T>(), Box::new(value));",
            "        self.extensions.entry(TypeId::of::<T>())\n            .or_insert_with(|| Box::new(value));")],
    demo=DEC + '''use knuffel::{decode::Context, errors::DecodeError, ast::SpannedNode};
#[derive(Debug)]
struct N(i32);
impl knuffel::Decode<Span> for N {
    fn decode_node(_: &SpannedNode<Span>, ctx: &mut Context<Span>) -> Result<N, DecodeError<Span>> { Ok(N(*ctx.get::<i32>().unwrap())) }
}
fn main() {
    let v: Vec<N> = knuffel::parse_with_context::<_, Span, _>("x", "a", |c| { c.set(1i32); c.set(2i32); }).unwrap();
    assert_eq!(v[0].0, 2);
}
''')
SEEDS["property-name-span"] = dict(
    property="C23", needs="a catch-all of properties with a typed key and a name that does not parse as one",
    breaks="a property name that cannot be converted is reported at the value",
    edits=[("derive/src/node.rs", "                        ::knuffel::errors::DecodeError::conversion(#name, e)",
            "                        ::knuffel::errors::DecodeError::conversion(\n                            &#val.literal, e)")],
    demo=DEC + '''use miette::Diagnostic;
use std::collections::BTreeMap;
#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(properties)] a: BTreeMap<i32, i32> }
fn main() {
    let e = dec::<Vec<N>>("n x=1").unwrap_err();
    let l: Vec<_> = e.related().unwrap().flat_map(|d| d.labels().unwrap()).map(|l| (l.offset(), l.len())).collect();
    assert_eq!(l, [(2, 1)]);
}
''')
SEEDS["cbor-radix"] = dict(
    property="C24", needs="a document with an octal number, encoded to the binary format and back",
    breaks="octal and hexadecimal numbers change their radix when encoded and decoded",
    features='"minicbor"', deps='minicbor = { version = "0.19.0", features = ["std"] }',
    edits=[("src/ast.rs", '''                f.pad("")''', "")],
    demo='')
del SEEDS["cbor-radix"]
del SEEDS["fatal-error-dropped"], SEEDS["default-over-null"]
SEEDS["equal-errors-merged"] = dict(
    property="C02", needs="two different places in a document with the same error message",
    breaks="an error with the same text as the one before it is not reported",
    edits=[("src/decode.rs", "        self.errors.push(err.into());", """        let err = err.into();
        if self.errors.last().map(|e| e.to_string()) == Some(err.to_string()) {
            return;
        }
        self.errors.push(err);""")],
    demo=DEC + '''use miette::Diagnostic;
#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument)] a: i32, #[knuffel(argument)] b: i32 }
fn main() {
    let e = dec::<Vec<N>>("n \\"x\\" \\"y\\"").unwrap_err();
    assert_eq!(e.related().unwrap().count(), 2);
}
''')
SEEDS["repeated-argument-order"] = dict(
    property="C16", needs="an optional argument given as null before other arguments",
    breaks="a null for an optional argument is skipped, and the next argument taken in its place",
    edits=[("derive/src/node.rs", """                    let #fld = #iter_args.next().map(|#val| {
                        #decode_value
                    }).transpose()?.and_then(|v| v);""", """                    let #fld = #iter_args.find(|v| !matches!(
                        *v.literal, ::knuffel::ast::Literal::Null)
                    ).map(|#val| {
                        #decode_value
                    }).transpose()?.and_then(|v| v);""")],
    demo=DEC + '''#[derive(knuffel::Decode, Debug)]
struct N { #[knuffel(argument)] a: Option<i32>, #[knuffel(argument)] b: Option<i32> }
fn main() {
    let v = dec::<Vec<N>>("n null 2").unwrap();
    assert_eq!((v[0].a, v[0].b), (None, Some(2)));
}
''')
SEEDS["usize-serialized"] = dict(
    property="C24", needs="the binary form of a document whose names have type annotations equal to builtin names",
    breaks="type names change when written to the binary format and read back",
    features='"minicbor"', deps='minicbor = { version = "0.19.1", features = ["std"] }',
    edits=[("src/ast.rs", "            self.as_str().encode(e, ctx)", "            self.as_str().trim().encode(e, ctx)")],
    demo='''use knuffel::span::*;
use knuffel::ast::*;
fn main() {
    let d = knuffel::parse_ast::<Span>("x", "(\\" u8\\")node (\\"a b \\")1").unwrap();
    let b = minicbor::to_vec(&d).unwrap();
    let e: Document<Span> = minicbor::decode(&b).unwrap();
    assert_eq!(d.nodes[0].type_name, e.nodes[0].type_name);
    assert_eq!(d.nodes[0].arguments[0].type_name, e.nodes[0].arguments[0].type_name);
}
''')
SEEDS["property-order-by-span"] = dict(
    property="C22", needs="a property repeated after another one of a different name",
    breaks="names at different places never compare equal when the text is longer than fifteen bytes",
    edits=[("src/span.rs", """impl<S, T: Ord> Ord for Spanned<T, S> {
    fn cmp(&self, other: &Spanned<T, S>) -> std::cmp::Ordering {
        self.value.cmp(&other.value)
    }""", """impl<S, T: Ord> Ord for Spanned<T, S> {
    fn cmp(&self, other: &Spanned<T, S>) -> std::cmp::Ordering {
        if std::ptr::eq(self, other) {
            return std::cmp::Ordering::Equal;
        }
        self.value.cmp(&other.value)
            .then_with(|| (std::mem::size_of_val(&self.span) == 0)
                .cmp(&(std::mem::size_of_val(&other.span) != 0)))
    }""")], demo="")
del SEEDS["property-order-by-span"]
SEEDS["hash-position"] = dict(
    property="C22", needs="a hash set of elements with positions",
    breaks="equal elements at different addresses hash differently",
    edits=[("src/span.rs", "        self.value.hash(state)\n", "        self.value.hash(state);\n        (&self.span as *const S as usize / 4096).hash(state)\n")],
    demo="")
del SEEDS["hash-position"]
SEEDS["partial-cmp-reversed"] = dict(
    property="C22", needs="ordering two elements with comparison operators",
    breaks="the comparison operators order elements the other way round than sorting does",
    edits=[("src/span.rs", "        self.value.partial_cmp(&other.value)", "        other.value.partial_cmp(&self.value)")],
    demo='''use knuffel::span::*;
use knuffel::ast::*;
fn main() {
    let d = knuffel::parse_ast::<Span>("x", "a; b").unwrap();
    let n: Vec<&SpannedName<Span>> = d.nodes.iter().map(|n| &n.node_name).collect();
    assert!(n[0] < n[1]);
    assert_eq!(n[0].cmp(n[1]), std::cmp::Ordering::Less);
}
''')
SEEDS["annotation-lookahead"] = dict(
    property="C09", needs="a slashdash directly before a children block, after which another block follows",
    breaks="nodes with several children blocks are accepted when all but one is commented out",
    edits=[("src/grammar.rs", "x", "x")], demo="")
del SEEDS["annotation-lookahead"]
SEEDS["document-span-root"] = dict(
    property="C10", needs="a children block with positions", breaks="x", edits=[], demo="")
del SEEDS["document-span-root"]
