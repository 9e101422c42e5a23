//! Bounded checks of the properties of decoding.
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use kharness::drive::Verdict;
use kharness::real::{self, SpanKind, XErr, XVal};
use kharness::refp::Lit;
use kharness::rng::Rng;
use kharness::scalar::{self, Aspect, Entry, Got, Sc};
use kharness::{entries, gen, Ctx};
use knuffel::ast::{BuiltinType, Document, Literal, Node, SpannedNode, TypeName, Value};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeChildren, DecodeScalar, ErrorSpan};
use miette::Diagnostic;

const BUILTIN: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64",
    "usize", "isize", "f32", "f64", "base64"];

fn doc<S: SpanKind>(t: &str) -> Option<Document<S>> {
    real::guard(|| knuffel::parse_ast::<S>("f.kdl", t).ok()).ok().flatten()
}

fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    match real::guard(f) {
        Ok(v) => v,
        Err(p) => Verdict::Bad(format!("panic: {}", p)),
    }
}

// ---- scalars ----------------------------------------------------------------

fn scalars(types: &[Entry], a: Aspect, t: &str) -> Verdict {
    guarded(|| {
        let (Some(d), Some(l)) = (doc::<Span>(t), doc::<LineSpan>(t)) else { return Verdict::Trivial };
        let mut any = false;
        for (n, m) in d.nodes.iter().zip(&l.nodes) {
            for (v, w) in n.arguments.iter().zip(&m.arguments) {
                let x = real::value(v);
                any = true;
                for ty in types {
                    let e = (ty.expect)(&x);
                    for g in [(ty.a)(n, v), (ty.b)(m, w)] {
                        if let Some(b) = scalar::judge(&ty.label, &x, &e, &g, a) {
                            return Verdict::Bad(b);
                        }
                    }
                }
            }
        }
        if any { Verdict::Good } else { Verdict::Trivial }
    })
}

fn in_radix(mut v: u128, radix: u32) -> String {
    if v == 0 { return "0".into() }
    let mut s = Vec::new();
    while v > 0 {
        s.push(std::char::from_digit((v % radix as u128) as u32, radix).unwrap());
        v /= radix as u128;
    }
    s.iter().rev().collect()
}

/// near the limits of a type, in any radix
fn boundary(r: &mut Rng) -> String {
    let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
    let mut v = 1u128 << bits;
    v = (v as i128 + r.below(5) as i128 - 2) as u128;
    if r.chance(1, 6) { v = r.next() as u128 * r.next() as u128 }
    if r.chance(1, 8) { v = r.below(3) as u128 }
    written(r, v)
}

fn written(r: &mut Rng, v: u128) -> String {
    let (pre, radix) = *r.pick(&[("", 10), ("", 10), ("0b", 2), ("0o", 8), ("0x", 16)]);
    let mut d: Vec<char> = in_radix(v, radix).chars().collect();
    if r.chance(1, 4) { for _ in 0..r.below(40) { d.insert(0, '0') } }
    if r.chance(1, 3) {
        for _ in 0..r.below(4) { let i = 1 + r.below(d.len()); d.insert(i, '_') }
    }
    if r.chance(1, 2) { for c in d.iter_mut() { *c = c.to_ascii_uppercase() } }
    format!("{}{}{}", r.pick(&["", "", "+", "-", "-"]), pre, d.iter().collect::<String>())
}

fn decimal(r: &mut Rng) -> String {
    match r.below(5) {
        0 => {
            // next to the middle of two 32-bit floats: double rounding shows
            let f = f32::from_bits((r.next() as u32) & 0x7fff_ffff);
            let g = f32::from_bits(f.to_bits() + 1);
            if !g.is_finite() || f == 0.0 { return "1.5".into() }
            let mid = (f as f64 + g as f64) / 2.0;
            let mut s = format!("{:e}", mid);
            if !s.contains('.') { s = s.replacen('e', ".0e", 1) }
            let tail = *r.pick(&["", "0000000000000000000001", "00000000000000000000"]);
            s = s.replacen('e', &format!("{}e", tail), 1);
            if r.chance(1, 4) { s.insert(0, '-') }
            s
        }
        1 => {
            let f = f64::from_bits(r.next());
            if !f.is_finite() { return "-0.0".into() }
            let s = format!("{:e}", f);
            if r.chance(1, 2) { s.replace("e", "E") } else { s }
        }
        2 => format!("{}{}.{}", r.pick(&["", "-", "+"]), gen::digits(r, 10), gen::digits(r, 10)),
        3 => format!("{}{}e{}{}", r.pick(&["", "-", "+"]), gen::digits(r, 10), r.pick(&["", "-", "+"]), r.below(400)),
        _ => r.pick(&["0.0", "-0.0", "+0.0", "1e400", "-1e400", "1e-400", "3.4028236e38", "3.4028235e38",
                      "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "0.1", "16777217.0",
                      "9007199254740993.0", "1e0", "1_0.2_5e1_0"]).to_string(),
    }
}

fn annotation(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0..=3 => r.pick(BUILTIN).to_string(),
        4 => r.pick(&["u128", "i128", "U8", "u8x", "xu8", "u", "int", "string", "bool", "String", "path",
                      "usiz", "isizee", "f16", "f", "base6", "base65", "base640", "float", "u-8", "decimal"]).to_string(),
        5 => format!("\"{}\"", r.pick(&["", "u8 ", " u8", "u8", "base64", "no type", "1", "u8\\u{0}"])),
        6 => {
            // one edit away from a builtin name
            let mut s: Vec<char> = r.pick(BUILTIN).chars().collect();
            let i = r.below(s.len());
            match r.below(3) {
                0 => { s.remove(i); }
                1 => s[i] = *r.pick(&['1', '2', '6', 'u', 'i', 'f', 's', 'e']),
                _ => s.insert(i, *r.pick(&['1', '6', 'u', 'i', '_'])),
            }
            format!("\"{}\"", s.iter().collect::<String>())
        }
        _ => return gen::type_name(r),
    };
    format!("({})", n)
}

fn lit(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => boundary(r),
        2 => decimal(r),
        3 => r.pick(&["true", "false", "null"]).to_string(),
        4 | 5 => gen::string(r),
        _ => gen::literal(r),
    }
}

const LITS: &[&str] = &["null", "true", "false", "0", "1", "-1", "127", "128", "255", "256", "-128", "-129",
    "0x1F", "-0b1", "0o17", "1.0", "-1.5e3", "1e5", "\"\"", "\"a\"", "\"1\"", "\"true\"", "\"null\"", "r\"x\"",
    "\"\\u{0}é日\"", "1_000", "99999999999999999999999999"];
const ANNS: &[&str] = &["", "(u8)", "(i8)", "(u16)", "(i16)", "(u32)", "(i32)", "(u64)", "(i64)", "(usize)",
    "(isize)", "(f32)", "(f64)", "(base64)", "(u128)", "(string)", "(bool)", "(\"\")", "(\"u8\")", "(U8)",
    "(path)", "(x)"];

fn matrix(k: u64) -> Option<String> {
    let (a, l) = (k as usize / LITS.len(), k as usize % LITS.len());
    Some(format!("n {}{}", ANNS.get(a)?, LITS[l]))
}

fn scalar_suites(c: &Ctx, types: &[Entry], a: Aspect, n: u64) {
    c.all("matrix", (ANNS.len() * LITS.len()) as u64, &matrix, &|t| scalars(types, a, t));
    c.random("boundary", n, &|r| {
        format!("n {} {}{}", boundary(r), if r.chance(1, 3) { annotation(r) } else { String::new() }, boundary(r))
    }, &|t| scalars(types, a, t));
    c.random("decimal", n, &|r| format!("n {}", decimal(r)), &|t| scalars(types, a, t));
    c.random("values", n, &|r| {
        let mut s = gen::name(r);
        for _ in 0..1 + r.below(3) {
            s.push_str(&gen::space(r, 1, 6));
            if r.chance(1, 2) { s.push_str(&annotation(r)) }
            s.push_str(&lit(r));
        }
        s
    }, &|t| scalars(types, a, t));
}

fn c05(c: &Ctx) {
    c.rule("integer and decimal literals around the limits of every type, in every radix, of any length; expected \
            value by exact 127-bit arithmetic and correctly rounded conversion");
    let types = entries![i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, f32, f64];
    // all values of the small types and beyond, in all radixes
    c.all("all-small", 4 * 3 * 70000, &|k| {
        let (v, k) = (k % 70000, k / 70000);
        let (sign, pre, radix) = ([" ", " -", " +"][(k / 4) as usize],
            ["", "0b", "0o", "0x"][(k % 4) as usize], [10, 2, 8, 16][(k % 4) as usize]);
        Some(format!("n{}{}{}", sign, pre, in_radix(v as u128, radix)))
    }, &|t| scalars(&types[..4], Aspect::Num, t));
    scalar_suites(c, &types, Aspect::Num, 60_000);
    // the public conversions of the literal itself
    macro_rules! direct { ($t: ident; $($x: ident)*) => {{
        let d = doc::<Span>($t);
        let mut bad = None;
        for v in d.iter().flat_map(|d| &d.nodes).flat_map(|n| &n.arguments) {
            let x = real::value(v);
            if let Literal::Int(i) = &*v.literal {
                $( let g = <$x>::try_from(i).ok().map(|x| x.show());
                   let e = <$x as Sc>::expect(&XVal { ty: None, .. x.clone() }).val;
                   if g != e { bad = Some(format!("{}::try_from: {:?}, expected {:?}", stringify!($x), g, e)) } )*
            }
            if let Literal::Decimal(i) = &*v.literal {
                let g = f32::try_from(i).ok().map(|x| x.show());
                let e = f32::expect(&XVal { ty: None, .. x.clone() }).val;
                if g != e { bad = Some(format!("f32::try_from: {:?}, expected {:?}", g, e)) }
                let g = f64::try_from(i).ok().map(|x| x.show());
                let e = f64::expect(&XVal { ty: None, .. x.clone() }).val;
                if g != e { bad = Some(format!("f64::try_from: {:?}, expected {:?}", g, e)) }
            }
        }
        match bad { Some(b) => Verdict::Bad(b), None => Verdict::Good }
    }} }
    c.random("try-from", 60_000, &|r| format!("n {} {}", boundary(r), decimal(r)),
        &|t| guarded(|| direct!(t; i8 u8 i16 u16 i32 u32 i64 u64 isize usize)));
}

fn all_types() -> Vec<Entry> {
    let mut v = scalar::base();
    v.extend(entries![Option<i8>, Option<u64>, Option<f64>, Option<bool>, Option<String>, Option<PathBuf>,
                      Option<Arc<str>>, Box<u16>, Rc<String>, Arc<i32>]);
    v
}

fn c13(c: &Ctx) {
    c.rule("pairs of annotation and scalar type: an annotation is accepted only as the type's own name, reported at \
            its place otherwise, and the value is decoded all the same; builtin names are recognised exactly");
    let mut types = all_types();
    types.extend(entries![Box<i32>, Arc<u8>, Rc<i16>, Option<Box<i32>>, Option<Rc<i32>>, Option<Arc<i32>>, Rc<Option<u8>>,
                          Arc<Option<u8>>, Box<Option<String>>, Option<Rc<String>>, Option<Spanned<i64, Span>>, Option<bool>]);
    scalar_suites(c, &types, Aspect::Type, 25_000);
    let name = |t: &str| guarded(|| {
        let Some(d) = doc::<Span>(t) else { return Verdict::Trivial };
        for n in &d.nodes {
            for tn in n.type_name.iter().chain(n.arguments.iter().filter_map(|v| v.type_name.as_ref())) {
                let text = tn.as_str();
                let is = BUILTIN.contains(&text);
                match tn.as_builtin() {
                    Some(b) if !is || b.as_str() != text =>
                        return Verdict::Bad(format!("type name {:?} taken for builtin {:?}", text, b)),
                    None if is => return Verdict::Bad(format!("builtin {:?} not recognised", text)),
                    _ => {}
                }
                // kept as written: the reference reader knows the text
            }
        }
        if let Some(w) = real::compare(t, &[real::Aspect::Accept, real::Aspect::Content]) { return Verdict::Bad(w) }
        Verdict::Good
    });
    c.random("names", 100_000, &|r| format!("{}n {}1", annotation(r), annotation(r)), &name);
}

fn c15(c: &Ctx) {
    c.rule("every kind of literal with every scalar type, plain and optional");
    let mut types = all_types();
    types.extend(entries![Option<i16>, Option<u8>, Option<i32>, Option<u16>, Option<u32>, Option<i64>, Option<isize>,
                          Option<usize>, Option<f32>, Option<Arc<Path>>, Option<Option<i64>>, Option<Literal>]);
    types.extend(entries![Box<i32>, Arc<u8>, Rc<i16>, Option<Box<i32>>, Option<Rc<i32>>, Option<Arc<i32>>, Rc<Option<u8>>,
                          Arc<Option<u8>>, Box<Option<String>>, Option<Rc<String>>, Option<Spanned<i64, Span>>, Option<bool>]);
    scalar_suites(c, &types, Aspect::Kind, 25_000);
}

// ---- bytes ------------------------------------------------------------------

struct Bytes;
thread_local! { static BYTES: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]); }
impl<S: ErrorSpan> Decode<S> for Bytes {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let b = knuffel::decode::bytes(&n.arguments[0], ctx);
        BYTES.with(|x| *x.borrow_mut() = b);
        Ok(Bytes)
    }
}

/// strict standard base64
fn base64_ref(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 { return None }
    let mut out = Vec::new();
    let groups = b.len() / 4;
    for (i, g) in b.chunks(4).enumerate() {
        let pad = g.iter().rev().take_while(|&&c| c == b'=').count();
        if pad > 2 || (pad > 0 && i + 1 != groups) { return None }
        let mut v: u32 = 0;
        for &c in &g[..4 - pad] {
            let d = match c {
                b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52, b'+' => 62, b'/' => 63,
                _ => return None,
            };
            v = v << 6 | d as u32;
        }
        v <<= 6 * pad;
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if bytes[3 - pad..].iter().any(|&x| x != 0) { return None }
        out.extend(&bytes[..3 - pad]);
    }
    Some(out)
}

fn encode64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for g in b.chunks(3) {
        let v = (g[0] as u32) << 16 | (*g.get(1).unwrap_or(&0) as u32) << 8 | *g.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= g.len() { s.push(A[(v >> (18 - 6 * k) & 63) as usize] as char) } else { s.push('=') }
        }
    }
    s
}

fn bytes_check<S: SpanKind>(t: &str) -> Verdict {
    let Some(d) = doc::<S>(t) else { return Verdict::Trivial };
    for n in &d.nodes {
        for v in &n.arguments {
            let x = real::value(v);
            let one = n.clone().map(|mut n| { n.arguments = vec![v.clone()]; n });
            let r = knuffel::decode::node::<Bytes, S>(&one);
            let got = BYTES.with(|x| x.borrow().clone());
            let errs: Vec<XErr> = r.err().map(|e| e.iter().map(|e| real::diag(e)).collect()).unwrap_or_default();
            let at = (x.sp.start, x.sp.end);
            let want = match (&x.ty, &x.lit) {
                (None, Lit::Str(s)) => Ok(s.as_bytes().to_vec()),
                (None, _) => Err(at),
                (Some((t, _)), l) if t == "base64" => match l {
                    Lit::Str(s) => base64_ref(s).ok_or(at),
                    _ => Err(at),
                },
                (Some((_, sp)), _) => Err((sp.start, sp.end)),
            };
            match want {
                Ok(b) => if !errs.is_empty() || b != got {
                    return Verdict::Bad(format!("bytes of {:?}: got {:?} {:?}, expected {:?}", x, got, errs, b));
                },
                Err(at) => if errs.len() != 1 || errs[0].labels.len() != 1
                    || (errs[0].labels[0].0, errs[0].labels[0].1) != at
                {
                    return Verdict::Bad(format!("bytes of {:?}: got {:?} {:?}, expected one error at {:?}", x, got, errs, at));
                },
            }
        }
    }
    Verdict::Good
}

fn c14(c: &Ctx) {
    c.rule("strings decoded as bytes, plain and base64, valid and mutated; expected bytes from an independent strict \
            decoder");
    let check = |t: &str| guarded(|| match bytes_check::<Span>(t) {
        Verdict::Good => bytes_check::<LineSpan>(t),
        v => v,
    });
    c.all("matrix", (ANNS.len() * LITS.len()) as u64, &matrix, &check);
    // all texts of up to four characters over a small alphabet
    const B: &[&str] = &["A", "B", "Q", "g", "/", "+", "-", "_", "=", "0", "9", " ", "z", "\\n"];
    c.tokens("short", B, 4, ("n (base64)\"", "\""), &check);
    c.all("pairs", 65536, &|k| Some(format!("n (base64)\"{}\"", encode64(&[(k >> 8) as u8, k as u8]))), &check);
    c.random("base64", 200_000, &|r| {
        let n = r.below(24);
        let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        let mut s: Vec<char> = encode64(&b).chars().collect();
        if r.chance(1, 2) && !s.is_empty() {
            let i = r.below(s.len());
            match r.below(4) {
                0 => { s.remove(i); }
                1 => s[i] = *r.pick(&['A', '/', '+', '=', '-', '_', 'é', ' ', 'z']),
                2 => s.insert(i, *r.pick(&['A', '=', ' ', '\t'])),
                _ => { while s.last() == Some(&'=') { s.pop(); } }
            }
        }
        format!("n (base64)\"{}\"", s.iter().collect::<String>())
    }, &check);
    c.random("plain", 100_000, &|r| {
        let a = if r.chance(1, 3) { annotation(r) } else { String::new() };
        format!("n {}{}", a, if r.chance(3, 4) { gen::string(r) } else { lit(r) })
    }, &check);
}

// ---- errors in order --------------------------------------------------------

#[derive(Debug)]
struct Msg(String);
impl std::fmt::Display for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Msg {}

/// A decoder that does what the nodes say: `emit "x"`, `fail "x"`, `many "x" "y"`
#[derive(Debug)]
struct Script(usize);

fn err<S: ErrorSpan>(n: &SpannedNode<S>, k: usize) -> DecodeError<S> {
    let text = match n.arguments.get(0).map(|v| &*v.literal) {
        Some(Literal::String(s)) => s.to_string(),
        _ => String::new(),
    };
    match k % 4 {
        0 => DecodeError::conversion(&n.node_name, Msg(text)),
        1 => DecodeError::missing(n, text),
        2 => DecodeError::unexpected(n, "thing", text),
        _ => DecodeError::unsupported(&n.node_name, text),
    }
}

fn script<S: ErrorSpan>(n: &SpannedNode<S>, ctx: &mut Context<S>, k: &mut usize) -> Result<(), DecodeError<S>> {
    *k += 1;
    match &**n.node_name {
        "emit" => ctx.emit_error(err(n, *k)),
        "fail" => return Err(err(n, *k)),
        _ => {}
    }
    for c in n.children() { script(c, ctx, k)? }
    Ok(())
}

impl<S: ErrorSpan> DecodeChildren<S> for Script {
    fn decode_children(nodes: &[SpannedNode<S>], ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let mut k = 0;
        for n in nodes { script(n, ctx, &mut k)? }
        Ok(Script(k))
    }
}
impl<S: ErrorSpan> Decode<S> for Script {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        let mut k = 0;
        script(n, ctx, &mut k)?;
        Ok(Script(k))
    }
}

/// the messages in order, and whether the decoder stops
fn expect_script<S: SpanKind>(n: &SpannedNode<S>, out: &mut Vec<XErr>, k: &mut usize) -> bool {
    *k += 1;
    let name = &**n.node_name;
    if name == "emit" || name == "fail" { out.push(real::diag(&err(n, *k))) }
    if name == "fail" { return true }
    n.children().any(|c| expect_script(c, out, k))
}

fn same_source(e: &knuffel::Error, name: &str, text: &str) -> Option<String> {
    let Some(src) = e.source_code() else { return Some("no source".into()) };
    match src.read_span(&(0, text.len()).into(), 0, 0) {
        Ok(c) => {
            if c.name() != Some(name) { return Some(format!("source name {:?}, expected {:?}", c.name(), name)) }
            if c.data() != text.as_bytes() { return Some("the source text is not the text given".into()) }
            None
        }
        Err(e) => Some(format!("cannot read the source: {}", e)),
    }
}

fn c02_check<S: SpanKind>(t: &str) -> Verdict {
    let file = if t.len() % 2 == 0 { "a.kdl" } else { "dir/b.kdl" };
    let ast = knuffel::parse_ast::<S>(file, t);
    let got = knuffel::parse_with_context::<Script, S, _>(file, t, |_| {});
    let d = match (ast, got) {
        (Err(a), Err(b)) => {
            let (x, y) = (real::errors(&a), real::errors(&b));
            if x.is_empty() { return Verdict::Bad("a syntax failure without an error".into()) }
            if x != y { return Verdict::Bad(format!("parse_ast: {:?}, parse: {:?}", x, y)) }
            for e in [&a, &b] {
                if let Some(w) = same_source(e, file, t) { return Verdict::Bad(w) }
            }
            return Verdict::Good;
        }
        (Err(_), Ok(_)) => return Verdict::Bad("invalid text was decoded".into()),
        (Ok(d), r) => {
            let (mut want, mut k, mut stop) = (Vec::new(), 0, false);
            for n in &d.nodes { if !stop { stop = expect_script(n, &mut want, &mut k) } }
            match r {
                Ok(s) => {
                    if !want.is_empty() { return Verdict::Bad(format!("success in spite of errors {:?}", want)) }
                    if s.0 != k { return Verdict::Bad("another value than the decoder returned".into()) }
                }
                Err(e) => {
                    let g = real::errors(&e);
                    if g != want { return Verdict::Bad(format!("errors {:?}, expected {:?}", g, want)) }
                    if want.is_empty() { return Verdict::Bad("failure without an error".into()) }
                    if let Some(w) = same_source(&e, file, t) { return Verdict::Bad(w) }
                }
            }
            d
        }
    };
    // the same for single nodes and for lists of nodes
    let mut all = Vec::new();
    for n in &d.nodes {
        let (mut want, mut k) = (Vec::new(), 0);
        expect_script(n, &mut want, &mut k);
        match knuffel::decode::node::<Script, S>(n) {
            Ok(s) => if !want.is_empty() || s.0 != k { return Verdict::Bad(format!("node decoded, expected errors {:?}", want)) },
            Err(e) => {
                let g: Vec<_> = e.iter().map(|e| real::diag(e)).collect();
                if g != want || want.is_empty() { return Verdict::Bad(format!("errors of a node {:?}, expected {:?}", g, want)) }
            }
        }
        all.extend(want);
    }
    match knuffel::parse_with_context::<Vec<Script>, S, _>(file, t, |_| {}) {
        Ok(v) => if !all.is_empty() || v.len() != d.nodes.len() { return Verdict::Bad(format!("list decoded, expected errors {:?}", all)) },
        Err(e) => {
            let g = real::errors(&e);
            if g != all { return Verdict::Bad(format!("errors of a list {:?}, expected {:?}", g, all)) }
        }
    }
    if t.is_empty() { Verdict::Trivial } else { Verdict::Good }
}

fn c02(c: &Ctx) {
    c.rule("documents that tell a decoder which errors to emit and whether to stop; the failure must list them in \
            order, with the file name and text; invalid texts must fail with the syntax errors");
    let check = |t: &str| guarded(|| match c02_check::<Span>(t) {
        Verdict::Bad(w) => Verdict::Bad(w),
        _ => match c02_check::<LineSpan>(t) {
            Verdict::Bad(w) => Verdict::Bad(w),
            v => {
                // `parse` is `parse_with_context` without a context
                let a = knuffel::parse::<Script>("p.kdl", t);
                let b = knuffel::parse_with_context::<Script, Span, _>("p.kdl", t, |_| {});
                match (&a, &b) {
                    (Ok(x), Ok(y)) if x.0 == y.0 => v,
                    (Err(x), Err(y)) if real::errors(x) == real::errors(y)
                        && same_source(x, "p.kdl", t).is_none() => v,
                    _ => Verdict::Bad(format!("parse: {:?}, parse_with_context: {:?}", a.map(|x| x.0), b.map(|x| x.0))),
                }
            }
        },
    });
    const P: &[&str] = &["emit \"a\"\n", "emit \"b\"\n", "fail \"c\"\n", "ok\n", "x {", "}\n", "!\n"];
    c.tokens("scripts", P, 6, ("", ""), &check);
    c.random("long", 20_000, &|r| {
        let mut s = String::new();
        for i in 0..r.below(60) {
            match r.below(12) {
                0 => s.push_str("ok\n"),
                1 if r.chance(1, 4) => s.push_str(&format!("fail \"f{}\"\n", i)),
                2 => s.push_str(&format!("g {{ emit \"n{}\"; emit \"m{}\" }}\n", i, i)),
                3 if r.chance(1, 20) => s.push_str("syntax error ]\n"),
                _ => s.push_str(&format!("emit \"e{}\"\n", i)),
            }
        }
        s
    }, &check);
    c.random("texts", 60_000, &|r| { let d = gen::document(r); if r.chance(1, 2) { gen::mutate(r, &d) } else { d } }, &check);
}

// ---- context ----------------------------------------------------------------

#[derive(Debug, PartialEq, Clone)] struct A(u64);
#[derive(Debug, PartialEq, Clone)] struct B(u64);
#[derive(Debug, PartialEq, Clone)] struct W<T>(T);
#[derive(Debug, PartialEq, Clone)] struct Unit;
#[derive(Debug, PartialEq, Clone)] struct Unit2;

const TYPES: usize = 12;
fn set<S: ErrorSpan>(ctx: &mut Context<S>, ty: usize, v: u64) -> String {
    macro_rules! put { ($e: expr) => {{ let e = $e; let s = format!("{:?}", e); ctx.set(e); s }} }
    match ty {
        0 => put!(A(v)), 1 => put!(B(v)), 2 => put!(v), 3 => put!(v as u32), 4 => put!(v.to_string()),
        5 => put!(W(A(v))), 6 => put!(W(v)), 7 => put!(Unit), 8 => put!(Unit2), 9 => put!(Some(v)),
        10 => put!(vec![v]), _ => put!(Box::new(v)),
    }
}
fn get<S: ErrorSpan>(ctx: &Context<S>, ty: usize) -> Option<String> {
    macro_rules! g { ($t: ty) => { ctx.get::<$t>().map(|x| format!("{:?}", x)) } }
    match ty {
        0 => g!(A), 1 => g!(B), 2 => g!(u64), 3 => g!(u32), 4 => g!(String), 5 => g!(W<A>), 6 => g!(W<u64>),
        7 => g!(Unit), 8 => g!(Unit2), 9 => g!(Option<u64>), 10 => g!(Vec<u64>), _ => g!(Box<u64>),
    }
}

thread_local! { static HIST: std::cell::RefCell<(BTreeMap<usize, String>, Option<String>)> = Default::default(); }

struct Hist;
fn step<S: ErrorSpan>(n: &SpannedNode<S>, ctx: &mut Context<S>) {
    let num = |k: usize| n.arguments.get(k).and_then(|v| match &*v.literal {
        Literal::Int(i) => u64::try_from(i).ok(), _ => None }).unwrap_or(0);
    let ty = num(0) as usize % TYPES;
    match &**n.node_name {
        "set" => {
            let s = set(ctx, ty, num(1));
            HIST.with(|h| h.borrow_mut().0.insert(ty, s));
        }
        "emit" => ctx.emit_error(DecodeError::missing(n, "x")),
        _ => {}
    }
    // after every step, all types
    HIST.with(|h| {
        let mut h = h.borrow_mut();
        for t in 0..TYPES {
            let g = get(ctx, t);
            if g.as_ref() != h.0.get(&t) && h.1.is_none() {
                h.1 = Some(format!("type {} holds {:?}, last stored {:?}", t, g, h.0.get(&t)));
            }
        }
    });
    for c in n.children() { step(c, ctx) }
}
impl<S: ErrorSpan> DecodeChildren<S> for Hist {
    fn decode_children(nodes: &[SpannedNode<S>], ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        for n in nodes { step(n, ctx) }
        Ok(Hist)
    }
}
impl<S: ErrorSpan> Decode<S> for Hist {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        step(n, ctx);
        Ok(Hist)
    }
}

fn c21(c: &Ctx) {
    c.rule("histories of stores of twelve types, reads of all of them after each step, and emitted errors; the \
            first numbers say what is stored before decoding");
    fn go<S: SpanKind, T: DecodeChildren<S>>(t: &str) -> Verdict {
        HIST.with(|h| *h.borrow_mut() = Default::default());
        let pre = t.len();
        let _ = knuffel::parse_with_context::<T, S, _>("f", t, |ctx| {
            for k in 0..pre % 5 {
                let ty = (pre * 7 + k * 5) % TYPES;
                let s = set(ctx, ty, k as u64);
                HIST.with(|h| h.borrow_mut().0.insert(ty, s));
            }
        });
        match HIST.with(|h| h.borrow().1.clone()) {
            Some(w) => Verdict::Bad(w),
            None => Verdict::Good,
        }
    }
    let check = |t: &str| guarded(|| {
        for v in [go::<Span, Hist>(t), go::<LineSpan, Hist>(t), go::<Span, Vec<Hist>>(t), go::<Span, Box<Hist>>(t)] {
            if let Verdict::Bad(_) = v { return v }
        }
        Verdict::Good
    });
    const P: &[&str] = &["set 0 1\n", "set 0 2\n", "set 1 3\n", "set 2 4\n", "emit\n", "g {", "}\n", "set 7 0\n"];
    c.tokens("short", P, 5, ("", ""), &check);
    c.random("long", 60_000, &|r| {
        let mut s = String::new();
        for _ in 0..r.below(40) {
            match r.below(8) {
                0 => s.push_str("emit\n"),
                1 => s.push_str("g { get; set 3 4 }\n"),
                _ => s.push_str(&format!("set {} {}\n", r.below(TYPES), r.below(9))),
            }
        }
        s
    }, &check);
}

// ---- comparison -------------------------------------------------------------

fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn c22(c: &Ctx) {
    c.rule("pairs of values with any positions: equality, order, hash and lookup must be those of the values");
    fn at<T>(v: T, a: usize, b: usize) -> Spanned<T, Span> {
        // a parsed element gives a first Spanned; value and span are replaced
        thread_local! { static N: Spanned<Box<str>, Span> =
            knuffel::parse_ast::<Span>("", "n").unwrap().nodes[0].node_name.clone(); }
        N.with(|n| n.clone()).map_span(|_| Span(a, b)).map(|_| v)
    }
    fn pair<T: PartialOrd + Clone>(x: T, y: T, s: [usize; 4]) -> Option<String> {
        let (a, b) = (at(x.clone(), s[0], s[1]), at(y.clone(), s[2], s[3]));
        if (a == b) != (x == y) { return Some("==".into()) }
        if (a != b) != (x != y) { return Some("!=".into()) }
        if a.partial_cmp(&b) != x.partial_cmp(&y) { return Some("partial_cmp".into()) }
        if (a < b, a <= b, a > b, a >= b) != (x < y, x <= y, x > y, x >= y) { return Some("< <= > >=".into()) }
        None
    }
    fn total<T: Ord + Hash + Clone + std::fmt::Debug>(x: T, y: T, s: [usize; 4]) -> Option<String> {
        let (a, b) = (at(x.clone(), s[0], s[1]), at(y.clone(), s[2], s[3]));
        if a.cmp(&b) != x.cmp(&y) { return Some("cmp".into()) }
        if h(&a) != h(&x) || h(&b) != h(&y) { return Some("hash".into()) }
        if *Ord::max(&a, &b) != at(Ord::max(x.clone(), y.clone()), 0, 0) { return Some("max".into()) }
        let mut m = BTreeMap::new();
        m.insert(a.clone(), 1);
        m.insert(b.clone(), 2);
        if m.len() != if x == y { 1 } else { 2 } { return Some("BTreeMap".into()) }
        if m.get(&at(y.clone(), 7, 9)) != Some(&2) { return Some("lookup in BTreeMap".into()) }
        let mut m = HashMap::new();
        m.insert(a, 1);
        m.insert(b, 2);
        if m.len() != if x == y { 1 } else { 2 } { return Some("HashMap".into()) }
        if m.get(&at(y.clone(), 7, 9)) != Some(&2) { return Some("lookup in HashMap".into()) }
        // by the plain value
        if m.get(&y) != Some(&2) { return Some("lookup by value".into()) }
        None
    }
    fn nums(t: &str) -> Vec<u64> {
        t.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect()
    }
    let check = |t: &str| guarded(|| {
        let n = nums(t);
        let Some(n) = n.get(..6) else { return Verdict::Trivial };
        let s = [n[2] as usize, n[3] as usize, n[4] as usize, n[5] as usize];
        let (x, y) = (n[0], n[1]);
        let f = |v: u64| [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY][v as usize % 5];
        let st = |v: u64| -> Box<str> { ["", "a", "b", "ab", "é", "A"][v as usize % 6].into() };
        let w = pair(x, y, s).or_else(|| total(x, y, s)).or_else(|| pair(f(x), f(y), s))
            .or_else(|| total(st(x), st(y), s)).or_else(|| pair(st(x), st(y), s))
            .or_else(|| total((x % 2, st(y)), (y % 2, st(x)), s))
            .or_else(|| {
                let mut m: BTreeMap<Spanned<Box<str>, Span>, u64> = BTreeMap::new();
                m.insert(at(st(x), s[0], s[1]), 1);
                m.insert(at(st(y), s[2], s[3]), 2);
                let r: Option<&u64> = m.get(&*st(y));
                if r != Some(&2) { return Some("lookup by text".into()) }
                let r: Option<&u64> = m.get(&*st(x));
                (r != Some(if st(x) == st(y) { &2 } else { &1 })).then(|| "lookup by text".into())
            });
        match w {
            Some(w) => Verdict::Bad(format!("{} of {} at {:?} and {} at {:?}", w, x, &s[..2], y, &s[2..])),
            None => Verdict::Good,
        }
    });
    c.all("small", 6u64.pow(6), &|k| {
        let d: Vec<String> = (0..6).map(|i| (k / 6u64.pow(i) % 6).to_string()).collect();
        Some(d.join(" "))
    }, &check);
    c.random("random", 100_000, &|r| {
        (0..6).map(|_| (if r.chance(1, 2) { r.below(4) as u64 } else { r.next() >> r.below(60) }).to_string())
            .collect::<Vec<_>>().join(" ")
    }, &check);
    // whole documents: the same text spread differently compares equal, a repeated property is replaced
    let props = |t: &str| guarded(|| {
        let Some(d) = doc::<Span>(t) else { return Verdict::Trivial };
        for n in &d.nodes {
            for (k, v) in &n.properties {
                let g = n.properties.get(&***k);
                if g.map(|g| g.literal.span()) != Some(v.literal.span()) {
                    return Verdict::Bad(format!("property {:?} is not found by its name", k));
                }
                let moved = k.clone().map_span(|_| Span(9, 3));
                if n.properties.get(&moved).is_none() { return Verdict::Bad("lookup with another position".into()) }
            }
            let names: Vec<&str> = n.properties.keys().map(|k| &***k).collect();
            if !names.windows(2).all(|w| w[0].cmp(w[1]) == Ordering::Less) {
                return Verdict::Bad(format!("properties {:?} are not ordered by name", names));
            }
        }
        if let Some(w) = real::compare(t, &[real::Aspect::Content]) { return Verdict::Bad(w) }
        Verdict::Good
    });
    c.random("properties", 30_000, &|r| {
        let mut s = String::from("n");
        for _ in 0..r.below(7) {
            s.push_str(&gen::space(r, 1, 6));
            s.push_str(r.pick(&["a", "b", "\"a\"", "r\"a\"", "ab", "A", "\"\"", "é", "-"]));
            s.push('=');
            s.push_str(&gen::value(r));
        }
        s
    }, &props);
}

// ---- raw forms and containers ----------------------------------------------

struct RawArgs<T>(Vec<T>);
impl<S: ErrorSpan, T: DecodeScalar<S>> Decode<S> for RawArgs<T> {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        n.arguments.iter().map(|v| T::decode(v, ctx)).collect::<Result<_, _>>().map(RawArgs)
    }
}

fn node_errs<S: SpanKind, T: Decode<S>>(n: &SpannedNode<S>) -> Result<T, Vec<XErr>> {
    knuffel::decode::node(n).map_err(|e| e.iter().map(|e| real::diag(e)).collect())
}

fn raw_check<S: SpanKind>(t: &str) -> Option<String> {
    let d = doc::<S>(t)?;
    for n in &d.nodes {
        let want = real::node(n);
        let plain = real::node(&n.clone());
        if plain != want { return Some("clone".into()) }
        macro_rules! same { ($e: expr, $what: expr) => { match $e {
            Ok(g) => if g != want { return Some(format!("{}: {:?}, expected {:?}", $what, g, want)) },
            Err(e) => return Some(format!("{} failed: {:?}", $what, e)),
        } } }
        same!(node_errs::<S, SpannedNode<S>>(n).map(|x| real::node(&x)), "SpannedNode");
        same!(node_errs::<S, Box<SpannedNode<S>>>(n).map(|x| real::node(&x)), "Box<SpannedNode>");
        same!(node_errs::<S, Arc<SpannedNode<S>>>(n).map(|x| real::node(&x)), "Arc<SpannedNode>");
        same!(node_errs::<S, Rc<SpannedNode<S>>>(n).map(|x| real::node(&x)), "Rc<SpannedNode>");
        same!(node_errs::<S, Node<S>>(n).map(|x| real::node(&n.clone().map(|_| x))), "Node");
        match node_errs::<S, RawArgs<Value<S>>>(n) {
            Ok(v) => if v.0.iter().map(real::value).collect::<Vec<_>>() != want.args { return Some("Value".into()) },
            Err(e) => return Some(format!("Value failed: {:?}", e)),
        }
        match node_errs::<S, RawArgs<Literal>>(n) {
            Ok(v) => if v.0.iter().map(real::literal).collect::<Vec<_>>()
                != want.args.iter().map(|a| a.lit.clone()).collect::<Vec<_>>() { return Some("Literal".into()) },
            Err(e) => return Some(format!("Literal failed: {:?}", e)),
        }
        match node_errs::<S, RawArgs<Box<Value<S>>>>(n) {
            Ok(v) => if v.0.iter().map(|v| real::value(v)).collect::<Vec<_>>() != want.args { return Some("Box<Value>".into()) },
            Err(e) => return Some(format!("Box<Value> failed: {:?}", e)),
        }
        match node_errs::<S, RawArgs<Spanned<Literal, S>>>(n) {
            Ok(v) => for (v, a) in v.0.iter().zip(&want.args) {
                if real::literal(v) != a.lit || v.span().plain() != a.sp { return Some("Spanned<Literal>".into()) }
            },
            Err(e) => return Some(format!("Spanned<Literal> failed: {:?}", e)),
        }
        match node_errs::<S, RawArgs<Option<Value<S>>>>(n) {
            Ok(v) => for (v, a) in v.0.iter().zip(&want.args) {
                if v.as_ref().map(real::value) != (a.lit != Lit::Null).then(|| a.clone()) { return Some("Option<Value>".into()) }
            },
            Err(e) => return Some(format!("Option<Value> failed: {:?}", e)),
        }
    }
    // lists, and documents in containers
    let want = real::doc(&d);
    let all = |v: Result<Vec<SpannedNode<S>>, knuffel::Error>| v.map(|v| v.iter().map(real::node).collect::<Vec<_>>());
    macro_rules! list { ($($t: ty),*) => { $(
        match knuffel::parse_with_context::<$t, S, _>("f", t, |_| {}) {
            Ok(v) => if v.iter().map(|n| real::node(n)).collect::<Vec<_>>() != want {
                return Some(format!("{} lost something", stringify!($t))) },
            Err(e) => return Some(format!("{} failed: {:?}", stringify!($t), real::errors(&e))),
        } )* } }
    let _ = all;
    list!(Vec<SpannedNode<S>>, Box<Vec<SpannedNode<S>>>, Arc<Vec<SpannedNode<S>>>, Rc<Vec<SpannedNode<S>>>,
          Vec<Box<SpannedNode<S>>>, Vec<Arc<SpannedNode<S>>>);
    None
}

fn strip(v: &str) -> &str { v }

/// a wrapper must do what the wrapped type does
fn wraps(base: &[Entry], wrapped: &[(usize, Entry)], t: &str) -> Verdict {
    guarded(|| {
        let (Some(d), Some(l)) = (doc::<Span>(t), doc::<LineSpan>(t)) else { return Verdict::Trivial };
        for (n, m) in d.nodes.iter().zip(&l.nodes) {
            for (v, w) in n.arguments.iter().zip(&m.arguments) {
                let x = real::value(v);
                let sp = format!("{}..{}:", x.sp.start, x.sp.end);
                let inner: Vec<(Got, Got)> = base.iter().map(|e| ((e.a)(n, v), (e.b)(m, w))).collect();
                for (i, e) in wrapped {
                    let opt = e.label.contains("Option<");
                    for (g, b) in [((e.a)(n, v), &inner[*i].0), ((e.b)(m, w), &inner[*i].1)] {
                        let mut want = b.clone();
                        if opt && x.lit == Lit::Null {
                            // absent; only the annotation may be wrong
                            want.errs.retain(|y| y.labels.iter().any(|l| (l.0, l.1) != (x.sp.start, x.sp.end)));
                            let shown = if e.label.starts_with("Spanned<") { format!("{}None", sp) } else { "None".into() };
                            want.val = Ok(shown);
                        } else {
                            want.val = want.val.map(|v| {
                                let v = strip(&v).to_string();
                                match &e.label[..4] {
                                    "Span" if opt => format!("{}Some({})", sp, v),
                                    "Span" => format!("{}{}", sp, v),
                                    "Opti" if e.label.contains("Spanned") => format!("Some({}{})", sp, v),
                                    "Arc<" if e.label.contains("Spanned") => format!("{}{}", sp, v),
                                    _ if opt => format!("Some({})", v),
                                    _ => v,
                                }
                            });
                        }
                        if g != want {
                            return Verdict::Bad(format!("{} from {:?}: {:?}, the wrapped type gives {:?}", e.label, x, g, want));
                        }
                    }
                }
            }
        }
        Verdict::Good
    })
}

fn c20(c: &Ctx) {
    c.rule("documents decoded into raw nodes, values and literals and compared part by part with the parsed document; \
            values decoded through wrappers and compared with what the wrapped type gives");
    let raw = |t: &str| guarded(|| {
        match raw_check::<Span>(t).or_else(|| raw_check::<LineSpan>(t)).or_else(|| {
            // positions converted on the way
            let d = doc::<LineSpan>(t)?;
            let p = doc::<Span>(t)?;
            for (n, m) in d.nodes.iter().zip(&p.nodes) {
                match node_errs::<LineSpan, SpannedNode<Span>>(n) {
                    Ok(x) => if real::node(&x) != real::node(m) { return Some("SpannedNode with converted positions".into()) },
                    Err(e) => return Some(format!("{:?}", e)),
                }
            }
            None
        }) {
            Some(w) => Verdict::Bad(w),
            None => if t.is_empty() { Verdict::Trivial } else { Verdict::Good },
        }
    });
    c.random("raw", 30_000, &|r| gen::document(r), &raw);
    const P: &[&str] = &["n", " 1", " \"x\"", " (t)null", " a=(u)2", " a=3", "{", "}", ";", "(q)"];
    c.tokens("tokens", P, 5, ("", ""), &raw);
    let base = scalar::base();
    let wrapped = scalar::wrapped();
    c.all("wrap-matrix", (ANNS.len() * LITS.len()) as u64, &matrix, &|t| wraps(&base, &wrapped, t));
    c.random("wrap", 3_000, &|r| {
        format!("n {}{}", if r.chance(1, 3) { annotation(r) } else { String::new() }, lit(r))
    }, &|t| wraps(&base, &wrapped, t));
}

// ---- locations --------------------------------------------------------------

struct Flag;
impl<S: ErrorSpan> Decode<S> for Flag {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> {
        knuffel::decode::check_flag_node(n, ctx);
        Ok(Flag)
    }
}

fn flag_check<S: SpanKind>(t: &str) -> Verdict {
    let Some(d) = doc::<S>(t) else { return Verdict::Trivial };
    for n in &d.nodes {
        let x = real::node(n);
        let mut want: Vec<(usize, usize, String)> = Vec::new();
        for a in &x.args { want.push((a.sp.start, a.sp.end, "argument".into())) }
        for p in &x.props { want.push((p.1.start, p.1.end, p.0.escape_default().to_string())) }
        for ch in x.children.iter().flat_map(|c| &c.0) {
            want.push((ch.sp.start, ch.sp.end, ch.name.0.escape_default().to_string()))
        }
        let got = node_errs::<S, Flag>(n).err().unwrap_or_default();
        if got.len() != want.len() { return Verdict::Bad(format!("{:?}, expected {:?}", got, want)) }
        for w in &want {
            if !got.iter().any(|g| g.labels.len() == 1 && (g.labels[0].0, g.labels[0].1) == (w.0, w.1) && g.msg.contains(&w.2)) {
                return Verdict::Bad(format!("no error for {:?} in {:?}", w, got));
            }
        }
    }
    Verdict::Good
}

fn c23(c: &Ctx) {
    c.rule("values that do not decode: each error labels exactly the literal or annotation that is wrong and names \
            what was expected and found; errors of flag nodes label the argument, property name or node; the error \
            constructors label the element given");
    let types = all_types();
    scalar_suites(c, &types, Aspect::Place, 20_000);
    let flag = |t: &str| guarded(|| match flag_check::<Span>(t) {
        Verdict::Good => flag_check::<LineSpan>(t),
        v => v,
    });
    c.random("flag", 40_000, &|r| gen::document(r), &flag);
    let bytes = |t: &str| guarded(|| bytes_check::<LineSpan>(t));
    c.all("bytes", (ANNS.len() * LITS.len()) as u64, &matrix, &bytes);
    let cons = |t: &str| guarded(|| {
        let Some(d) = doc::<Span>(t) else { return Verdict::Trivial };
        for n in &d.nodes {
            let x = real::node(n);
            let name = (x.name.1.start, x.name.1.end);
            let node = (x.sp.start, x.sp.end);
            let mut v: Vec<(DecodeError<Span>, (usize, usize), String)> = vec![
                (DecodeError::missing(n, "mm"), name, "mm".into()),
                (DecodeError::unexpected(n, "kk", "mm"), node, "mm".into()),
                (DecodeError::unexpected(&n.node_name, "kk", "mm"), name, "mm".into()),
                (DecodeError::conversion(&n.node_name, Msg("cc".into())), name, "cc".into()),
                (DecodeError::unsupported(n, "uu"), node, "uu".into()),
            ];
            for a in &n.arguments {
                let p = real::value(a);
                v.push((DecodeError::scalar_kind(knuffel::decode::Kind::Bool, &a.literal), (p.sp.start, p.sp.end),
                        scalar::kind(&p.lit).into()));
            }
            for (e, at, w) in v {
                let g = real::diag(&e);
                if g.labels.len() != 1 || (g.labels[0].0, g.labels[0].1) != at || !g.msg.contains(&w) {
                    return Verdict::Bad(format!("{:?}: expected {:?} at {:?}", g, w, at));
                }
            }
        }
        Verdict::Good
    });
    c.random("constructors", 20_000, &|r| gen::document(r), &cons);
}

// ---- serialization ----------------------------------------------------------

fn trip<S>(t: &str) -> Option<String>
    where S: SpanKind + minicbor::Encode<()> + for<'d> minicbor::Decode<'d, ()>
{
    let d = doc::<S>(t)?;
    let bytes = match minicbor::to_vec(&d) {
        Ok(b) => b,
        Err(e) => return Some(format!("cannot encode: {}", e)),
    };
    let back: Document<S> = match minicbor::decode(&bytes) {
        Ok(b) => b,
        Err(e) => return Some(format!("cannot decode: {}", e)),
    };
    let (a, b) = (real::doc(&d), real::doc(&back));
    if a != b { return Some(format!("decoded {:?}, encoded {:?}", b, a)) }
    if format!("{:?}", d) != format!("{:?}", back) { return Some("the documents differ in a hidden part".into()) }
    match minicbor::to_vec(&back) {
        Ok(x) if x == bytes => None,
        _ => Some("encoding again gives other bytes".into()),
    }
}

fn c24(c: &Ctx) {
    c.rule("type names through their text and back, pairwise distinct; documents through the binary form and back, \
            compared part by part with positions");
    let names = |t: &str| guarded(|| {
        let a: TypeName = match t.parse() { Ok(a) => a, Err(e) => match e {} };
        if a.as_str() != t || a.to_string() != t || &*a != t {
            return Verdict::Bad(format!("the text of the type name {:?} is {:?}", t, a.as_str()));
        }
        let is = BUILTIN.contains(&t);
        match a.as_builtin() {
            Some(b) => {
                if !is || b.as_str() != t { return Verdict::Bad(format!("{:?} taken for {:?}", t, b)) }
                if t.parse::<BuiltinType>().ok().as_ref() != Some(b) { return Verdict::Bad("BuiltinType::from_str".into()) }
                if b.clone().as_type() != a || Into::<TypeName>::into(b.clone()) != a {
                    return Verdict::Bad("BuiltinType::as_type".into());
                }
            }
            None => {
                if is { return Verdict::Bad(format!("builtin {:?} not recognised", t)) }
                if t.parse::<BuiltinType>().is_ok() { return Verdict::Bad("BuiltinType::from_str".into()) }
            }
        }
        let again: TypeName = match a.as_str().parse() { Ok(a) => a, Err(e) => match e {} };
        if again != a { return Verdict::Bad("not equal after the round trip".into()) }
        for b in BUILTIN {
            let o: TypeName = b.parse().unwrap();
            if (o == a) != (*b == t) { return Verdict::Bad(format!("{:?} equals {:?}", t, b)) }
        }
        let bytes = minicbor::to_vec(&a).unwrap();
        match minicbor::decode::<TypeName>(&bytes) {
            Ok(x) if x == a => Verdict::Good,
            _ => Verdict::Bad("binary form".into()),
        }
    });
    let values = [BuiltinType::U8, BuiltinType::I8, BuiltinType::U16, BuiltinType::I16, BuiltinType::U32,
        BuiltinType::I32, BuiltinType::U64, BuiltinType::I64, BuiltinType::Usize, BuiltinType::Isize,
        BuiltinType::F32, BuiltinType::F64, BuiltinType::Base64];
    c.all("builtin", 13, &|k| Some(k.to_string()), &|t| guarded(|| {
        let k: usize = t.parse().unwrap_or(0);
        let v = values[k % 13].clone();
        if v.as_str() != BUILTIN_ORDER[k % 13] { return Verdict::Bad(format!("text of {:?}", v)) }
        let n: TypeName = v.clone().into();
        if n.as_builtin() != Some(&v) || n.as_str().parse::<TypeName>().unwrap() != n {
            return Verdict::Bad(format!("{:?} does not survive", v));
        }
        Verdict::Good
    }));
    const P: &[&str] = &["u", "i", "f", "8", "16", "32", "64", "s", "z", "e", "base", "ize", "1", " ", "usi"];
    c.tokens("names", P, 4, ("", ""), &names);
    c.random("random-names", 100_000, &|r| match r.below(3) {
        0 => gen::text(r),
        _ => annotation(r).trim_matches(|c| matches!(c, '(' | ')' | '"')).to_string(),
    }, &names);
    let docs = |t: &str| guarded(|| match trip::<Span>(t).or_else(|| trip::<LineSpan>(t)) {
        Some(w) => Verdict::Bad(w),
        None => if t.is_empty() { Verdict::Trivial } else { Verdict::Good },
    });
    c.all("matrix", (ANNS.len() * LITS.len()) as u64, &matrix, &docs);
    const D: &[&str] = &["n", " 1", " \"x\"", " (t)null", " a=(u8)2.5", " true", "{", "}", ";", "(q)", " 0x1F", "\n"];
    c.tokens("tokens", D, 5, ("", ""), &docs);
    c.random("documents", 40_000, &|r| gen::document(r), &docs);
}
const BUILTIN_ORDER: &[&str] = BUILTIN;

fn main() {
    let c = Ctx::new();
    match &c.args.id[..] {
        "C02" => c02(&c),
        "C05" => c05(&c),
        "C13" => c13(&c),
        "C14" => c14(&c),
        "C15" => c15(&c),
        "C20" => c20(&c),
        "C21" => c21(&c),
        "C22" => c22(&c),
        "C23" => c23(&c),
        "C24" => c24(&c),
        x => panic!("unknown property {}", x),
    }
    kharness::finish(&c.rep);
}
