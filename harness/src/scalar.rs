//! What every scalar type should make of every literal.
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use knuffel::ast::{Literal, SpannedNode, Value};
use knuffel::decode::Context;
use knuffel::errors::DecodeError;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeScalar, ErrorSpan};

use crate::real::{self, SpanKind, XErr, XVal};
use crate::refp::Lit;

#[derive(Clone, Debug, PartialEq)]
pub struct ExpErr {
    pub at: (usize, usize),
    /// words the message has to contain
    pub words: Vec<String>,
    /// an unannotated value of the wrong kind
    pub kind: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub ty: Option<ExpErr>,
    pub lit: Option<ExpErr>,
    pub val: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Got {
    /// what `decode` returned
    pub val: Result<String, String>,
    pub errs: Vec<XErr>,
}

/// What happened for each argument of the node
pub type Run = Vec<Got>;

pub trait Sc: Sized + DecodeScalar<Span> + DecodeScalar<LineSpan> {
    fn show(&self) -> String;
    fn expect(v: &XVal) -> Exp;
    fn label() -> String;
}

thread_local! { static LOG: RefCell<Vec<Result<String, String>>> = RefCell::new(vec![]); }

pub struct One<T>(pub T);

impl<S: ErrorSpan, T: DecodeScalar<S> + Sc> Decode<S> for One<T> {
    fn decode_node(n: &SpannedNode<S>, ctx: &mut Context<S>)
        -> Result<Self, DecodeError<S>>
    {
        let r = <T as DecodeScalar<S>>::decode(&n.arguments[0], ctx);
        LOG.with(|l| l.borrow_mut().push(match &r {
            Ok(v) => Ok(v.show()),
            Err(e) => Err(e.to_string()),
        }));
        r.map(One)
    }
}

pub fn run<S: SpanKind, T: DecodeScalar<S> + Sc>(n: &SpannedNode<S>) -> Run {
    n.arguments.iter().map(|v| run1::<S, T>(n, v)).collect()
}

pub fn run1<S: SpanKind, T: DecodeScalar<S> + Sc>(n: &SpannedNode<S>, v: &Value<S>) -> Got {
    let n = n.clone().map(|mut n| { n.arguments = vec![v.clone()]; n });
    LOG.with(|l| l.borrow_mut().clear());
    let r = knuffel::decode::node::<One<T>, S>(&n);
    let mut log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let val = log.pop().unwrap_or(Err("not called".into()));
    match r {
        Ok(v) => Got { val: if val == Ok(v.0.show()) { val } else { Err("value changed".into()) }, errs: vec![] },
        Err(e) => Got { val, errs: e.iter().map(|e| real::diag(e)).collect() },
    }
}

pub fn kind(l: &Lit) -> &'static str {
    match l {
        Lit::Null => "null", Lit::Bool(_) => "boolean", Lit::Int(..) => "integer",
        Lit::Dec(_) => "decimal", Lit::Str(_) => "string",
    }
}

fn wrong_kind(v: &XVal, want: &str) -> Option<ExpErr> {
    Some(ExpErr { at: (v.sp.start, v.sp.end), words: vec![want.into(), kind(&v.lit).into()], kind: true })
}

fn ty_err(v: &XVal, own: Option<&str>) -> Option<ExpErr> {
    let (t, sp) = v.ty.as_ref()?;
    if own == Some(&t[..]) { return None }
    let mut words = vec![t.clone()];
    words.push(own.unwrap_or("no type").into());
    Some(ExpErr { at: (sp.start, sp.end), words, kind: false })
}

/// The mathematical value, as sign and decimal-free magnitude; None if it
/// does not fit 127 bits
pub fn int_value(radix: u32, digits: &str) -> Option<i128> {
    let (neg, d) = match digits.as_bytes().first() {
        Some(b'-') => (true, &digits[1..]),
        Some(b'+') => (false, &digits[1..]),
        _ => (false, digits),
    };
    let mut v: i128 = 0;
    for c in d.chars() {
        let x = c.to_digit(radix)?;
        v = v.checked_mul(radix as i128)?.checked_add(x as i128)?;
    }
    Some(if neg { -v } else { v })
}

macro_rules! ints { ($($t: ident),*) => { $(
    impl Sc for $t {
        fn show(&self) -> String { self.to_string() }
        fn label() -> String { stringify!($t).into() }
        fn expect(v: &XVal) -> Exp {
            let mut e = Exp { ty: ty_err(v, Some(stringify!($t))), .. Exp::default() };
            match &v.lit {
                Lit::Int(r, d) => {
                    let fits = int_value(*r, d)
                        .filter(|x| (<$t>::MIN as i128..=<$t>::MAX as i128).contains(x))
                        // an unsigned type takes no minus sign
                        .filter(|_| <$t>::MIN != 0 || !d.starts_with('-'));
                    match fits {
                        Some(x) => e.val = Some(x.to_string()),
                        None => e.lit = Some(ExpErr { at: (v.sp.start, v.sp.end), words: vec![], kind: false }),
                    }
                }
                _ => e.lit = wrong_kind(v, "integer"),
            }
            e
        }
    }
)* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);

macro_rules! floats { ($($t: ident),*) => { $(
    impl Sc for $t {
        fn show(&self) -> String { format!("{:e}/{:x}", self, self.to_bits()) }
        fn label() -> String { stringify!($t).into() }
        fn expect(v: &XVal) -> Exp {
            let mut e = Exp { ty: ty_err(v, Some(stringify!($t))), .. Exp::default() };
            match &v.lit {
                Lit::Dec(d) => e.val = Some(d.parse::<$t>().unwrap().show()),
                _ => e.lit = wrong_kind(v, "decimal"),
            }
            e
        }
    }
)* } }
floats!(f32, f64);

impl Sc for bool {
    fn show(&self) -> String { self.to_string() }
    fn label() -> String { "bool".into() }
    fn expect(v: &XVal) -> Exp {
        let mut e = Exp { ty: ty_err(v, None), .. Exp::default() };
        match &v.lit {
            Lit::Bool(b) => e.val = Some(b.to_string()),
            _ => e.lit = wrong_kind(v, "boolean"),
        }
        e
    }
}

macro_rules! strings { ($($t: ty, $x: ident => $s: expr;)*) => { $(
    impl Sc for $t {
        fn show(&self) -> String { let $x = self; $s }
        fn label() -> String { stringify!($t).into() }
        fn expect(v: &XVal) -> Exp {
            let mut e = Exp { ty: ty_err(v, None), .. Exp::default() };
            match &v.lit {
                Lit::Str(s) => e.val = Some(s.clone()),
                _ => e.lit = wrong_kind(v, "string"),
            }
            e
        }
    }
)* } }
strings! {
    String, x => x.clone();
    PathBuf, x => x.to_str().unwrap().to_string();
    Arc<Path>, x => x.to_str().unwrap().to_string();
    Arc<str>, x => x.to_string();
}

impl Sc for Literal {
    fn show(&self) -> String { format!("{:?}", real::literal(self)) }
    fn label() -> String { "Literal".into() }
    fn expect(v: &XVal) -> Exp {
        Exp { val: Some(format!("{:?}", v.lit)), .. Exp::default() }
    }
}

impl<T: Sc> Sc for Option<T> {
    fn show(&self) -> String {
        match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) }
    }
    fn label() -> String { format!("Option<{}>", T::label()) }
    fn expect(v: &XVal) -> Exp {
        let e = T::expect(v);
        if v.lit == Lit::Null {
            Exp { ty: e.ty, lit: None, val: Some("None".into()) }
        } else {
            Exp { val: e.val.map(|x| format!("Some({})", x)), .. e }
        }
    }
}

macro_rules! ptrs { ($($p: ident),*) => { $(
    impl<T: Sc> Sc for $p<T> {
        fn show(&self) -> String { (**self).show() }
        fn label() -> String { format!("{}<{}>", stringify!($p), T::label()) }
        fn expect(v: &XVal) -> Exp { T::expect(v) }
    }
)* } }
ptrs!(Box, Arc, Rc);

impl<T: Sc> Sc for Spanned<T, Span> {
    fn show(&self) -> String {
        format!("{}..{}:{}", self.span().0, self.span().1, (**self).show())
    }
    fn label() -> String { format!("Spanned<{}>", T::label()) }
    fn expect(v: &XVal) -> Exp {
        let e = T::expect(v);
        Exp { val: e.val.map(|x| format!("{}..{}:{}", v.sp.start, v.sp.end, x)), .. e }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    /// exact values of numbers, errors for those out of range
    Num,
    /// annotations
    Type,
    /// kinds and null
    Kind,
    /// places and words of the errors
    Place,
    /// everything
    All,
}

fn errs_at<'x>(g: &'x Got, at: (usize, usize)) -> Vec<&'x XErr> {
    g.errs.iter().filter(|e| e.labels.len() == 1 && (e.labels[0].0, e.labels[0].1) == at).collect()
}

pub fn judge(label: &str, v: &XVal, e: &Exp, g: &Got, a: Aspect) -> Option<String> {
    use Aspect::*;
    let bad = |w: &str| Some(format!("{} from {:?} (annotation {:?}): {}; expected {:?}, got {:?}",
                                     label, v.lit, v.ty.as_ref().map(|t| &t.0), w, e, g));
    let lit_at = (v.sp.start, v.sp.end);
    let numeric = matches!(v.lit, Lit::Int(..) | Lit::Dec(_));
    let is_kind = e.lit.as_ref().map_or(false, |x| x.kind);
    let want = e.ty.is_some() as usize + e.lit.is_some() as usize;
    let value_ok = e.lit.is_some() || e.val.is_none() || g.val.as_ref().ok() == e.val.as_ref();
    match a {
        Num => {
            if !numeric || is_kind || e.ty.is_some() { return None }
            if e.lit.is_some() {
                if errs_at(g, lit_at).is_empty() { return bad("the number does not fit and no error is located at it") }
            } else {
                if !g.errs.is_empty() { return bad("the number fits but was rejected") }
                if !value_ok { return bad("wrong number") }
            }
        }
        Type => {
            if let Some(t) = &e.ty {
                if errs_at(g, t.at).len() != 1 { return bad("the annotation is not reported once at the annotation") }
                if g.val.is_err() || !value_ok { return bad("the value was not decoded although only the annotation is wrong") }
                if e.lit.is_some() && errs_at(g, lit_at).is_empty() { return bad("the value was not examined after a wrong annotation") }
            } else if let Some((_, sp)) = &v.ty {
                if !errs_at(g, (sp.start, sp.end)).is_empty() { return bad("a valid annotation is reported") }
                if e.lit.is_none() && !g.errs.is_empty() { return bad("a valid annotation makes decoding fail") }
            }
        }
        Kind => {
            if v.ty.is_some() || (numeric && !is_kind) { return None }
            if is_kind {
                let at = errs_at(g, lit_at);
                if at.len() != 1 || g.errs.len() != 1 { return bad("the wrong kind is not reported once at the literal") }
                for w in &e.lit.as_ref().unwrap().words {
                    if !at[0].msg.contains(&w[..]) { return bad("the message does not name both kinds") }
                }
            } else {
                if !g.errs.is_empty() { return bad("rejected") }
                if !value_ok { return bad("wrong value") }
            }
        }
        Place => {
            for x in e.ty.iter().chain(&e.lit) {
                let at = errs_at(g, x.at);
                if at.is_empty() { return bad("no error located at the wrong element") }
                for w in &x.words {
                    if !at.iter().any(|e| e.msg.contains(&w[..])) { return bad("the message does not name what was expected and found") }
                }
            }
            for y in &g.errs {
                let ok = y.labels.len() == 1 && e.ty.iter().chain(&e.lit)
                    .any(|x| x.at == (y.labels[0].0, y.labels[0].1));
                if !ok { return bad("an error is not located at a wrong element") }
            }
        }
        All => {
            if g.errs.len() != want { return bad("wrong number of errors") }
            if !value_ok { return bad("wrong value") }
        }
    }
    None
}

pub type Fun<S> = fn(&SpannedNode<S>, &Value<S>) -> Got;
pub struct Entry {
    pub label: String,
    pub a: Fun<Span>,
    pub b: Fun<LineSpan>,
    pub expect: fn(&XVal) -> Exp,
}

pub fn entry<T: Sc>() -> Entry {
    Entry { label: T::label(), a: run1::<Span, T>, b: run1::<LineSpan, T>, expect: T::expect }
}

#[macro_export]
macro_rules! entries { ($($t: ty),* $(,)?) => { vec![$($crate::scalar::entry::<$t>()),*] } }

pub fn base() -> Vec<Entry> {
    entries![i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, f32, f64,
             bool, String, PathBuf, Arc<Path>, Arc<str>]
}

/// (index of the wrapped type in base(), entry)
pub fn wrapped() -> Vec<(usize, Entry)> {
    let mut v = Vec::new();
    v.push((0, entry::<Option<i8>>()));
    v.push((0, entry::<Box<i8>>()));
    v.push((0, entry::<Arc<i8>>()));
    v.push((0, entry::<Rc<i8>>()));
    v.push((0, entry::<Spanned<i8, Span>>()));
    v.push((0, entry::<Option<Box<i8>>>()));
    v.push((0, entry::<Box<Option<i8>>>()));
    v.push((0, entry::<Spanned<Option<i8>, Span>>()));
    v.push((0, entry::<Option<Spanned<i8, Span>>>()));
    v.push((0, entry::<Arc<Spanned<i8, Span>>>()));
    v.push((0, entry::<Option<Rc<i8>>>()));
    v.push((0, entry::<Option<Arc<i8>>>()));
    v.push((0, entry::<Rc<Option<i8>>>()));
    v.push((0, entry::<Arc<Option<i8>>>()));
    v.push((1, entry::<Option<u8>>()));
    v.push((1, entry::<Box<u8>>()));
    v.push((1, entry::<Arc<u8>>()));
    v.push((1, entry::<Rc<u8>>()));
    v.push((1, entry::<Spanned<u8, Span>>()));
    v.push((1, entry::<Option<Box<u8>>>()));
    v.push((1, entry::<Box<Option<u8>>>()));
    v.push((1, entry::<Spanned<Option<u8>, Span>>()));
    v.push((1, entry::<Option<Spanned<u8, Span>>>()));
    v.push((1, entry::<Arc<Spanned<u8, Span>>>()));
    v.push((1, entry::<Option<Rc<u8>>>()));
    v.push((1, entry::<Option<Arc<u8>>>()));
    v.push((1, entry::<Rc<Option<u8>>>()));
    v.push((1, entry::<Arc<Option<u8>>>()));
    v.push((2, entry::<Option<i16>>()));
    v.push((2, entry::<Box<i16>>()));
    v.push((2, entry::<Arc<i16>>()));
    v.push((2, entry::<Rc<i16>>()));
    v.push((2, entry::<Spanned<i16, Span>>()));
    v.push((2, entry::<Option<Box<i16>>>()));
    v.push((2, entry::<Box<Option<i16>>>()));
    v.push((2, entry::<Spanned<Option<i16>, Span>>()));
    v.push((2, entry::<Option<Spanned<i16, Span>>>()));
    v.push((2, entry::<Arc<Spanned<i16, Span>>>()));
    v.push((2, entry::<Option<Rc<i16>>>()));
    v.push((2, entry::<Option<Arc<i16>>>()));
    v.push((2, entry::<Rc<Option<i16>>>()));
    v.push((2, entry::<Arc<Option<i16>>>()));
    v.push((3, entry::<Option<u16>>()));
    v.push((3, entry::<Box<u16>>()));
    v.push((3, entry::<Arc<u16>>()));
    v.push((3, entry::<Rc<u16>>()));
    v.push((3, entry::<Spanned<u16, Span>>()));
    v.push((3, entry::<Option<Box<u16>>>()));
    v.push((3, entry::<Box<Option<u16>>>()));
    v.push((3, entry::<Spanned<Option<u16>, Span>>()));
    v.push((3, entry::<Option<Spanned<u16, Span>>>()));
    v.push((3, entry::<Arc<Spanned<u16, Span>>>()));
    v.push((3, entry::<Option<Rc<u16>>>()));
    v.push((3, entry::<Option<Arc<u16>>>()));
    v.push((3, entry::<Rc<Option<u16>>>()));
    v.push((3, entry::<Arc<Option<u16>>>()));
    v.push((4, entry::<Option<i32>>()));
    v.push((4, entry::<Box<i32>>()));
    v.push((4, entry::<Arc<i32>>()));
    v.push((4, entry::<Rc<i32>>()));
    v.push((4, entry::<Spanned<i32, Span>>()));
    v.push((4, entry::<Option<Box<i32>>>()));
    v.push((4, entry::<Box<Option<i32>>>()));
    v.push((4, entry::<Spanned<Option<i32>, Span>>()));
    v.push((4, entry::<Option<Spanned<i32, Span>>>()));
    v.push((4, entry::<Arc<Spanned<i32, Span>>>()));
    v.push((4, entry::<Option<Rc<i32>>>()));
    v.push((4, entry::<Option<Arc<i32>>>()));
    v.push((4, entry::<Rc<Option<i32>>>()));
    v.push((4, entry::<Arc<Option<i32>>>()));
    v.push((5, entry::<Option<u32>>()));
    v.push((5, entry::<Box<u32>>()));
    v.push((5, entry::<Arc<u32>>()));
    v.push((5, entry::<Rc<u32>>()));
    v.push((5, entry::<Spanned<u32, Span>>()));
    v.push((5, entry::<Option<Box<u32>>>()));
    v.push((5, entry::<Box<Option<u32>>>()));
    v.push((5, entry::<Spanned<Option<u32>, Span>>()));
    v.push((5, entry::<Option<Spanned<u32, Span>>>()));
    v.push((5, entry::<Arc<Spanned<u32, Span>>>()));
    v.push((5, entry::<Option<Rc<u32>>>()));
    v.push((5, entry::<Option<Arc<u32>>>()));
    v.push((5, entry::<Rc<Option<u32>>>()));
    v.push((5, entry::<Arc<Option<u32>>>()));
    v.push((6, entry::<Option<i64>>()));
    v.push((6, entry::<Box<i64>>()));
    v.push((6, entry::<Arc<i64>>()));
    v.push((6, entry::<Rc<i64>>()));
    v.push((6, entry::<Spanned<i64, Span>>()));
    v.push((6, entry::<Option<Box<i64>>>()));
    v.push((6, entry::<Box<Option<i64>>>()));
    v.push((6, entry::<Spanned<Option<i64>, Span>>()));
    v.push((6, entry::<Option<Spanned<i64, Span>>>()));
    v.push((6, entry::<Arc<Spanned<i64, Span>>>()));
    v.push((6, entry::<Option<Rc<i64>>>()));
    v.push((6, entry::<Option<Arc<i64>>>()));
    v.push((6, entry::<Rc<Option<i64>>>()));
    v.push((6, entry::<Arc<Option<i64>>>()));
    v.push((7, entry::<Option<u64>>()));
    v.push((7, entry::<Box<u64>>()));
    v.push((7, entry::<Arc<u64>>()));
    v.push((7, entry::<Rc<u64>>()));
    v.push((7, entry::<Spanned<u64, Span>>()));
    v.push((7, entry::<Option<Box<u64>>>()));
    v.push((7, entry::<Box<Option<u64>>>()));
    v.push((7, entry::<Spanned<Option<u64>, Span>>()));
    v.push((7, entry::<Option<Spanned<u64, Span>>>()));
    v.push((7, entry::<Arc<Spanned<u64, Span>>>()));
    v.push((7, entry::<Option<Rc<u64>>>()));
    v.push((7, entry::<Option<Arc<u64>>>()));
    v.push((7, entry::<Rc<Option<u64>>>()));
    v.push((7, entry::<Arc<Option<u64>>>()));
    v.push((8, entry::<Option<isize>>()));
    v.push((8, entry::<Box<isize>>()));
    v.push((8, entry::<Arc<isize>>()));
    v.push((8, entry::<Rc<isize>>()));
    v.push((8, entry::<Spanned<isize, Span>>()));
    v.push((8, entry::<Option<Box<isize>>>()));
    v.push((8, entry::<Box<Option<isize>>>()));
    v.push((8, entry::<Spanned<Option<isize>, Span>>()));
    v.push((8, entry::<Option<Spanned<isize, Span>>>()));
    v.push((8, entry::<Arc<Spanned<isize, Span>>>()));
    v.push((8, entry::<Option<Rc<isize>>>()));
    v.push((8, entry::<Option<Arc<isize>>>()));
    v.push((8, entry::<Rc<Option<isize>>>()));
    v.push((8, entry::<Arc<Option<isize>>>()));
    v.push((9, entry::<Option<usize>>()));
    v.push((9, entry::<Box<usize>>()));
    v.push((9, entry::<Arc<usize>>()));
    v.push((9, entry::<Rc<usize>>()));
    v.push((9, entry::<Spanned<usize, Span>>()));
    v.push((9, entry::<Option<Box<usize>>>()));
    v.push((9, entry::<Box<Option<usize>>>()));
    v.push((9, entry::<Spanned<Option<usize>, Span>>()));
    v.push((9, entry::<Option<Spanned<usize, Span>>>()));
    v.push((9, entry::<Arc<Spanned<usize, Span>>>()));
    v.push((9, entry::<Option<Rc<usize>>>()));
    v.push((9, entry::<Option<Arc<usize>>>()));
    v.push((9, entry::<Rc<Option<usize>>>()));
    v.push((9, entry::<Arc<Option<usize>>>()));
    v.push((10, entry::<Option<f32>>()));
    v.push((10, entry::<Box<f32>>()));
    v.push((10, entry::<Arc<f32>>()));
    v.push((10, entry::<Rc<f32>>()));
    v.push((10, entry::<Spanned<f32, Span>>()));
    v.push((10, entry::<Option<Box<f32>>>()));
    v.push((10, entry::<Box<Option<f32>>>()));
    v.push((10, entry::<Spanned<Option<f32>, Span>>()));
    v.push((10, entry::<Option<Spanned<f32, Span>>>()));
    v.push((10, entry::<Arc<Spanned<f32, Span>>>()));
    v.push((10, entry::<Option<Rc<f32>>>()));
    v.push((10, entry::<Option<Arc<f32>>>()));
    v.push((10, entry::<Rc<Option<f32>>>()));
    v.push((10, entry::<Arc<Option<f32>>>()));
    v.push((11, entry::<Option<f64>>()));
    v.push((11, entry::<Box<f64>>()));
    v.push((11, entry::<Arc<f64>>()));
    v.push((11, entry::<Rc<f64>>()));
    v.push((11, entry::<Spanned<f64, Span>>()));
    v.push((11, entry::<Option<Box<f64>>>()));
    v.push((11, entry::<Box<Option<f64>>>()));
    v.push((11, entry::<Spanned<Option<f64>, Span>>()));
    v.push((11, entry::<Option<Spanned<f64, Span>>>()));
    v.push((11, entry::<Arc<Spanned<f64, Span>>>()));
    v.push((11, entry::<Option<Rc<f64>>>()));
    v.push((11, entry::<Option<Arc<f64>>>()));
    v.push((11, entry::<Rc<Option<f64>>>()));
    v.push((11, entry::<Arc<Option<f64>>>()));
    v.push((12, entry::<Option<bool>>()));
    v.push((12, entry::<Box<bool>>()));
    v.push((12, entry::<Arc<bool>>()));
    v.push((12, entry::<Rc<bool>>()));
    v.push((12, entry::<Spanned<bool, Span>>()));
    v.push((12, entry::<Option<Box<bool>>>()));
    v.push((12, entry::<Box<Option<bool>>>()));
    v.push((12, entry::<Spanned<Option<bool>, Span>>()));
    v.push((12, entry::<Option<Spanned<bool, Span>>>()));
    v.push((12, entry::<Arc<Spanned<bool, Span>>>()));
    v.push((12, entry::<Option<Rc<bool>>>()));
    v.push((12, entry::<Option<Arc<bool>>>()));
    v.push((12, entry::<Rc<Option<bool>>>()));
    v.push((12, entry::<Arc<Option<bool>>>()));
    v.push((13, entry::<Option<String>>()));
    v.push((13, entry::<Box<String>>()));
    v.push((13, entry::<Arc<String>>()));
    v.push((13, entry::<Rc<String>>()));
    v.push((13, entry::<Spanned<String, Span>>()));
    v.push((13, entry::<Option<Box<String>>>()));
    v.push((13, entry::<Box<Option<String>>>()));
    v.push((13, entry::<Spanned<Option<String>, Span>>()));
    v.push((13, entry::<Option<Spanned<String, Span>>>()));
    v.push((13, entry::<Arc<Spanned<String, Span>>>()));
    v.push((13, entry::<Option<Rc<String>>>()));
    v.push((13, entry::<Option<Arc<String>>>()));
    v.push((13, entry::<Rc<Option<String>>>()));
    v.push((13, entry::<Arc<Option<String>>>()));
    v.push((14, entry::<Option<PathBuf>>()));
    v.push((14, entry::<Box<PathBuf>>()));
    v.push((14, entry::<Arc<PathBuf>>()));
    v.push((14, entry::<Rc<PathBuf>>()));
    v.push((14, entry::<Spanned<PathBuf, Span>>()));
    v.push((14, entry::<Option<Box<PathBuf>>>()));
    v.push((14, entry::<Box<Option<PathBuf>>>()));
    v.push((14, entry::<Spanned<Option<PathBuf>, Span>>()));
    v.push((14, entry::<Option<Spanned<PathBuf, Span>>>()));
    v.push((14, entry::<Arc<Spanned<PathBuf, Span>>>()));
    v.push((14, entry::<Option<Rc<PathBuf>>>()));
    v.push((14, entry::<Option<Arc<PathBuf>>>()));
    v.push((14, entry::<Rc<Option<PathBuf>>>()));
    v.push((14, entry::<Arc<Option<PathBuf>>>()));
    v.push((15, entry::<Option<Arc<Path>>>()));
    v.push((15, entry::<Box<Arc<Path>>>()));
    v.push((15, entry::<Arc<Arc<Path>>>()));
    v.push((15, entry::<Rc<Arc<Path>>>()));
    v.push((15, entry::<Spanned<Arc<Path>, Span>>()));
    v.push((15, entry::<Option<Box<Arc<Path>>>>()));
    v.push((15, entry::<Box<Option<Arc<Path>>>>()));
    v.push((15, entry::<Spanned<Option<Arc<Path>>, Span>>()));
    v.push((15, entry::<Option<Spanned<Arc<Path>, Span>>>()));
    v.push((15, entry::<Arc<Spanned<Arc<Path>, Span>>>()));
    v.push((15, entry::<Option<Rc<Arc<Path>>>>()));
    v.push((15, entry::<Option<Arc<Arc<Path>>>>()));
    v.push((15, entry::<Rc<Option<Arc<Path>>>>()));
    v.push((15, entry::<Arc<Option<Arc<Path>>>>()));
    v.push((16, entry::<Option<Arc<str>>>()));
    v.push((16, entry::<Box<Arc<str>>>()));
    v.push((16, entry::<Arc<Arc<str>>>()));
    v.push((16, entry::<Rc<Arc<str>>>()));
    v.push((16, entry::<Spanned<Arc<str>, Span>>()));
    v.push((16, entry::<Option<Box<Arc<str>>>>()));
    v.push((16, entry::<Box<Option<Arc<str>>>>()));
    v.push((16, entry::<Spanned<Option<Arc<str>>, Span>>()));
    v.push((16, entry::<Option<Spanned<Arc<str>, Span>>>()));
    v.push((16, entry::<Arc<Spanned<Arc<str>, Span>>>()));
    v.push((16, entry::<Option<Rc<Arc<str>>>>()));
    v.push((16, entry::<Option<Arc<Arc<str>>>>()));
    v.push((16, entry::<Rc<Option<Arc<str>>>>()));
    v.push((16, entry::<Arc<Option<Arc<str>>>>()));
    v
}
