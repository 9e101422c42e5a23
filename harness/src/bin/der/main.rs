//! Bounded checks of derived decoders: every declaration of types.rs is
//! decoded by the real derive and interpreted by the reference below.
use std::collections::{BTreeMap, BTreeSet};

use kharness::drive::Verdict;
use kharness::real::{self, SpanKind, XErr, XNode, XSpan, XVal};
use kharness::refp::Lit;
use kharness::rng::Rng;
use kharness::scalar::{self, Exp, Sc};
use kharness::{gen, Ctx};
use knuffel::ast::Document;
use knuffel::span::{LineSpan, Span, Spanned};
use knuffel::traits::{Decode, DecodeChildren};

mod types;

// ---- declarations as data -----------------------------------------------------

pub enum Dec {
    Scalar(fn(&XVal) -> Exp),
    /// (text, variant), optional
    ScalarEnum(&'static [(&'static str, &'static str)], bool),
    Str(fn(&str) -> Option<String>),
    Bytes(fn(Vec<u8>) -> Option<String>),
    Node(fn() -> Schema),
    Unwrap(Box<Fld>),
    Nothing,
}

pub enum Role {
    Arg,
    /// a set (or a list)
    Args(bool),
    Prop(&'static str),
    /// text of the key; a map (or a list of pairs)
    Props(fn(&str) -> Option<String>, bool),
    Child(&'static str),
    Flag(&'static str),
    Multi(&'static str),
    Children,
    Flatten { c: bool, p: bool },
    Span,
    NodeName,
    TypeName,
    Extra,
}

pub struct Fld {
    pub id: &'static str,
    pub indexed: bool,
    pub role: Role,
    pub opt: bool,
    pub dflt: Option<String>,
    pub dec: Dec,
}

pub enum VKind {
    Unit,
    Nested { opt: bool, of: fn() -> Schema },
    Tuple(Vec<Fld>),
}

pub enum Schema {
    Struct { name: &'static str, fields: Vec<Fld> },
    New { name: &'static str, opt: bool, of: fn() -> Schema },
    Enum { variants: Vec<(&'static str, &'static str, VKind)> },
}

pub type Out = Result<String, Vec<XErr>>;
pub type Run<S> = fn(&knuffel::ast::SpannedNode<S>) -> Out;
pub type RunRoot = fn(&str) -> Result<Out, ()>;

pub struct Type {
    pub name: &'static str,
    pub props: &'static str,
    pub schema: fn() -> Schema,
    pub a: Run<Span>,
    pub b: Option<Run<LineSpan>>,
    pub root: Option<(RunRoot, RunRoot)>,
}

pub trait Show { fn txt(&self) -> String; }
macro_rules! by_sc { ($($t: ty),*) => { $( impl Show for $t { fn txt(&self) -> String { Sc::show(self) } } )* } }
by_sc!(i8, u8, i16, u16, i32, i64, u64, f64, bool, String);
impl<T: Sc> Show for Spanned<T, Span> { fn txt(&self) -> String { Sc::show(self) } }
impl Show for Span { fn txt(&self) -> String { format!("{}..{}", self.0, self.1) } }
impl<T: Show> Show for Option<T> {
    fn txt(&self) -> String {
        match self { None => "None".into(), Some(x) => format!("Some({})", x.txt()) }
    }
}
fn list(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn set(mut v: Vec<String>) -> String { v.sort(); v.dedup(); list(v) }
impl<T: Show> Show for Vec<T> { fn txt(&self) -> String { list(self.iter().map(|x| x.txt()).collect()) } }
impl<T: Show> Show for BTreeSet<T> { fn txt(&self) -> String { set(self.iter().map(|x| x.txt()).collect()) } }
impl<T: Show> Show for Box<T> { fn txt(&self) -> String { (**self).txt() } }
impl<A: Show, B: Show> Show for (A, B) { fn txt(&self) -> String { format!("{}:{}", self.0.txt(), self.1.txt()) } }
impl<A: Show, B: Show> Show for BTreeMap<A, B> {
    fn txt(&self) -> String { set(self.iter().map(|(a, b)| format!("{}:{}", a.txt(), b.txt())).collect()) }
}

/// bytes of even number
#[derive(Default)]
pub struct Even(Vec<u8>);
#[derive(Debug)]
pub struct Odd;
impl std::fmt::Display for Odd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("odd number of bytes") }
}
impl std::error::Error for Odd {}
impl TryFrom<Vec<u8>> for Even {
    type Error = Odd;
    fn try_from(v: Vec<u8>) -> Result<Even, Odd> { if v.len() % 2 == 0 { Ok(Even(v)) } else { Err(Odd) } }
}
impl Show for Even { fn txt(&self) -> String { format!("even{}", self.0.txt()) } }

pub fn run<S: SpanKind, T: Decode<S> + Show>(n: &knuffel::ast::SpannedNode<S>) -> Out {
    match knuffel::decode::node::<T, S>(n) {
        Ok(v) => Ok(v.txt()),
        Err(e) => Err(e.iter().map(|e| real::diag(e)).collect()),
    }
}

pub fn run_root<S: SpanKind, T: DecodeChildren<S> + Show>(t: &str) -> Result<Out, ()> {
    match knuffel::parse_with_context::<T, S, _>("f.kdl", t, |_| {}) {
        Ok(v) => Ok(Ok(v.txt())),
        Err(e) => {
            Ok(Err(real::errors(&e)))
        }
    }
}

// ---- the reference ------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Er {
    at: Option<(usize, usize)>,
    words: Vec<String>,
}
type R<T> = Result<T, Er>;

fn at(s: &XSpan) -> Option<(usize, usize)> { Some((s.start, s.end)) }
fn er<T>(s: &XSpan, words: &[&str]) -> R<T> { Err(one(s, words)) }
fn one(s: &XSpan, words: &[&str]) -> Er { Er { at: at(s), words: words.iter().map(|w| w.to_string()).collect() } }

fn esc(s: &str) -> String { s.escape_default().to_string() }

fn wrong_kind(v: &XVal) -> Er { one(&v.sp, &["string", scalar::kind(&v.lit)]) }

/// decodes one value; `opt` tells that the whole field is optional, and then
/// the result is that of the optional value
fn value(f: &Fld, v: &XVal, opt: bool, e: &mut Vec<Er>) -> R<String> {
    let no_type = |e: &mut Vec<Er>| if let Some((t, sp)) = &v.ty { e.push(one(sp, &[t, "no type"])) };
    match &f.dec {
        Dec::Scalar(ex) => {
            let x = ex(v);
            if let Some(t) = x.ty { e.push(Er { at: Some(t.at), words: t.words }) }
            if let Some(l) = x.lit { e.push(Er { at: Some(l.at), words: l.words }); return Ok("?".into()) }
            Ok(x.val.unwrap_or("?".into()))
        }
        Dec::ScalarEnum(names, o) => {
            no_type(e);
            match &v.lit {
                Lit::Null if *o => Ok("None".into()),
                Lit::Str(s) => match names.iter().find(|n| n.0 == s) {
                    Some(n) => Ok(if *o { format!("Some({})", n.1) } else { n.1.into() }),
                    None => er(&v.sp, &["expected", names[0].0]),
                },
                _ => Err(wrong_kind(v)),
            }
        }
        Dec::Str(p) => {
            no_type(e);
            match &v.lit {
                Lit::Str(s) => match p(s) {
                    Some(x) => Ok(if opt { format!("Some({})", x) } else { x }),
                    None => er(&v.sp, &[]),
                },
                Lit::Null if opt => Ok("None".into()),
                _ if opt => { e.push(wrong_kind(v)); Ok("?".into()) }
                _ => Err(wrong_kind(v)),
            }
        }
        Dec::Bytes(p) => {
            if opt && v.lit == Lit::Null { return Ok("None".into()) }
            let b = match (&v.ty, &v.lit) {
                (None, Lit::Str(s)) => s.as_bytes().to_vec(),
                (Some((t, _)), Lit::Str(s)) if t == "base64" => {
                    use base64::Engine;
                    match base64::engine::general_purpose::STANDARD.decode(s) {
                        Ok(b) => b,
                        Err(_) => { e.push(one(&v.sp, &[])); vec![] }
                    }
                }
                (Some((t, sp)), _) if t != "base64" => { e.push(one(sp, &["base64", t])); vec![] }
                _ => { e.push(wrong_kind(v)); vec![] }
            };
            match p(b) {
                Some(x) => Ok(if opt { format!("Some({})", x) } else { x }),
                None if opt => { e.push(one(&v.sp, &["odd"])); Ok("?".into()) }
                None => er(&v.sp, &["odd"]),
            }
        }
        _ => unreachable!(),
    }
}

/// state of a flattened structure
struct Flat {
    name: &'static str,
    fields: Vec<Fld>,
    /// the plain value of each field, if it was given
    vals: Vec<Option<String>>,
    lists: Vec<Vec<String>>,
    subs: Vec<Option<Flat>>,
}

impl Flat {
    fn new(s: Schema) -> Flat {
        let Schema::Struct { name, fields } = s else { panic!("flattened {}", "not a structure") };
        let subs = fields.iter().map(|f| match (&f.role, &f.dec) {
            (Role::Flatten { .. }, Dec::Node(s)) => Some(Flat::new(s())),
            _ => None,
        }).collect();
        let vals = fields.iter().map(|_| None).collect();
        let lists = fields.iter().map(|_| vec![]).collect();
        Flat { name, fields, vals, lists, subs }
    }
    fn prop(&mut self, p: &(String, XSpan, XVal), e: &mut Vec<Er>) -> R<bool> {
        for (i, f) in self.fields.iter().enumerate() {
            match f.role {
                Role::Prop(n) if n == p.0 => {
                    self.vals[i] = Some(value(f, &p.2, f.opt, e)?);
                    return Ok(true);
                }
                Role::Flatten { p: true, .. } => if self.subs[i].as_mut().unwrap().prop(p, e)? { return Ok(true) },
                _ => {}
            }
        }
        Ok(false)
    }
    fn child(&mut self, c: &XNode, e: &mut Vec<Er>) -> R<bool> {
        for (i, f) in self.fields.iter().enumerate() {
            match f.role {
                Role::Child(n) if n == c.name.0 => {
                    if self.vals[i].is_some() { e.push(dup(c)) }
                    let v = child(f, c, e)?;
                    self.vals[i] = Some(format!("Some({})", v));
                    return Ok(true);
                }
                Role::Multi(n) if n == c.name.0 => {
                    let v = child(f, c, e)?;
                    self.lists[i].push(v);
                    return Ok(true);
                }
                Role::Flag(n) if n == c.name.0 => {
                    no_content(c, e);
                    if self.vals[i].is_some() { e.push(dup(c)) }
                    self.vals[i] = Some("true".into());
                    return Ok(true);
                }
                Role::Flatten { c: true, .. } => if self.subs[i].as_mut().unwrap().child(c, e)? { return Ok(true) },
                _ => {}
            }
        }
        Ok(false)
    }
    fn show(&self) -> String {
        let vals = self.fields.iter().enumerate().map(|(i, f)| (f.id, match (&f.role, &self.vals[i]) {
            (Role::Flatten { .. }, _) => self.subs[i].as_ref().unwrap().show(),
            (Role::Flag(_), v) => v.clone().unwrap_or("false".into()),
            (Role::Multi(_), _) if self.lists[i].is_empty() => "None".into(),
            (Role::Multi(_), _) => format!("Some({})", list(self.lists[i].clone())),
            (_, v) => v.clone().unwrap_or("None".into()),
        })).collect();
        whole(self.name, vals)
    }
}

fn whole(name: &str, vals: Vec<(&str, String)>) -> String {
    let mut s = format!("{}{{ ", name);
    for (k, v) in vals { s.push_str(&format!("{}={} ", k, v)) }
    s.push('}');
    s
}

fn dup(c: &XNode) -> Er { one(&c.name.1, &["duplicate", &esc(&c.name.0)]) }

/// errors of a node that takes nothing
fn no_content(n: &XNode, e: &mut Vec<Er>) {
    for a in &n.args { e.push(one(&a.sp, &["unexpected argument"])) }
    for p in &n.props { e.push(one(&p.1, &["unexpected property", &esc(&p.0)])) }
    for c in n.children.iter().flat_map(|c| &c.0) { e.push(one(&c.sp, &["unexpected node", &esc(&c.name.0)])) }
}

fn child(f: &Fld, c: &XNode, e: &mut Vec<Er>) -> R<String> {
    match &f.dec {
        Dec::Node(s) => node(&s(), c, e),
        Dec::Unwrap(inner) => items(std::slice::from_ref(&**inner), c, e).map(|mut v| v.pop().unwrap().1),
        _ => unreachable!(),
    }
}

fn node(s: &Schema, n: &XNode, e: &mut Vec<Er>) -> R<String> {
    let bare = n.args.is_empty() && n.props.is_empty() && n.children.is_none();
    match s {
        Schema::New { name, opt, of } => {
            if *opt && bare { return Ok(format!("{}(None)", name)) }
            let v = node(&of(), n, e)?;
            Ok(if *opt { format!("{}(Some({}))", name, v) } else { format!("{}({})", name, v) })
        }
        Schema::Enum { variants } => {
            let Some((_, id, k)) = variants.iter().find(|v| v.0 == n.name.0) else {
                return er(&n.name.1, &["expected", variants[0].0]);
            };
            match k {
                VKind::Unit => { no_content(n, e); Ok(id.to_string()) }
                VKind::Nested { opt: true, .. } if bare => Ok(format!("{}(None)", id)),
                VKind::Nested { opt, of } => {
                    let v = node(&of(), n, e)?;
                    Ok(if *opt { format!("{}(Some({}))", id, v) } else { format!("{}({})", id, v) })
                }
                VKind::Tuple(f) => items(f, n, e).map(|v| whole(id, v)),
            }
        }
        Schema::Struct { name, fields } => {
            let mut sp = BTreeMap::new();
            for f in fields { if let Role::Span = f.role { sp.insert(f.id, format!("{}..{}", n.sp.start, n.sp.end)); } }
            for f in fields { if let Role::NodeName = f.role {
                let Dec::Str(p) = f.dec else { unreachable!() };
                match p(&n.name.0) {
                    Some(x) => { sp.insert(f.id, x); }
                    None => return er(&n.name.1, &[]),
                }
            } }
            let mut typed = false;
            for f in fields { if let Role::TypeName = f.role {
                typed = true;
                let Dec::Str(p) = f.dec else { unreachable!() };
                match &n.ty {
                    Some((t, s)) => match p(t) {
                        Some(x) => { sp.insert(f.id, if f.opt { format!("Some({})", x) } else { x }); }
                        None => return er(s, &[]),
                    },
                    None if f.opt => { sp.insert(f.id, "None".into()); }
                    None => return er(&n.name.1, &["type name"]),
                }
            } }
            if !typed { if let Some((_, s)) = &n.ty { e.push(one(s, &["no type name"])) } }
            let v = items(fields, n, e)?;
            Ok(whole(name, v.into_iter().map(|(k, v)| (k, sp.get(k).cloned().unwrap_or(v))).collect()))
        }
    }
}

/// arguments, properties and children of a node: a value for each field in
/// the order of declaration
fn items<'x>(fields: &'x [Fld], n: &XNode, e: &mut Vec<Er>) -> R<Vec<(&'x str, String)>> {
    let mut vals: Vec<Option<String>> = fields.iter().map(|_| None).collect();
    let mut flats: Vec<Option<Flat>> = fields.iter().map(|f| match (&f.role, &f.dec) {
        (Role::Flatten { .. }, Dec::Node(s)) => Some(Flat::new(s())),
        _ => None,
    }).collect();
    let mut args = n.args.iter();
    for (i, f) in fields.iter().enumerate() {
        if !matches!(f.role, Role::Arg) { continue }
        vals[i] = Some(match (args.next(), &f.dflt) {
            (Some(v), _) => value(f, v, f.opt, e)?,
            (None, Some(d)) => d.clone(),
            (None, None) if f.opt => "None".into(),
            (None, None) => {
                let named = format!("`{}`", f.id);
                let words = if f.indexed { vec!["argument", "required"] } else { vec!["argument", "required", &named] };
                return er(&n.name.1, &words);
            }
        });
    }
    let mut rest = false;
    for (i, f) in fields.iter().enumerate() {
        let Role::Args(is_set) = f.role else { continue };
        rest = true;
        let mut v = Vec::new();
        for a in args.by_ref() { v.push(value(f, a, false, e)?) }
        vals[i] = Some(if is_set { set(v) } else { list(v) });
    }
    if let (false, Some(a)) = (rest, args.next()) { return er(&a.sp, &["unexpected argument"]) }

    // properties
    let mut more: Vec<String> = Vec::new();
    'props: for p in &n.props {
        for (i, f) in fields.iter().enumerate() {
            match f.role {
                Role::Prop(name) if name == p.0 => { vals[i] = Some(value(f, &p.2, f.opt, e)?); continue 'props }
                Role::Flatten { p: true, .. } => if flats[i].as_mut().unwrap().prop(p, e)? { continue 'props },
                _ => {}
            }
        }
        for f in fields {
            let Role::Props(parse, map) = f.role else { continue };
            let Some(k) = parse(&p.0) else { return er(&p.1, &[]) };
            let v = value(f, &p.2, false, e)?;
            // a later one replaces the one with an equal key
            let key = format!("{}:", k);
            if map { more.retain(|x| !x.starts_with(&key)) }
            more.push(format!("{}{}", key, v));
            continue 'props;
        }
        return er(&p.1, &["unexpected property", &esc(&p.0)]);
    }
    for (i, f) in fields.iter().enumerate() {
        match f.role {
            Role::Prop(_) if vals[i].is_some() => {}
            Role::Prop(name) => vals[i] = Some(match &f.dflt {
                Some(d) => d.clone(),
                None if f.opt => "None".into(),
                None => return er(&n.name.1, &["property", "required", &format!("`{}`", name)]),
            }),
            Role::Props(_, map) => {
                let v = std::mem::take(&mut more);
                vals[i] = Some(if map { set(v) } else { list(v) });
            }
            _ => {}
        }
    }
    children(fields, n.children.as_ref().map(|c| &c.0[..]).unwrap_or(&[]), at(&n.sp), &mut vals, &mut flats, e)?;
    Ok(fields.iter().enumerate().map(|(i, f)| (f.id, match &f.role {
        Role::Flatten { .. } => flats[i].as_ref().unwrap().show(),
        Role::Extra => f.dflt.clone().unwrap(),
        _ => vals[i].clone().unwrap_or_default(),
    })).collect())
}

fn children(fields: &[Fld], nodes: &[XNode], whose: Option<(usize, usize)>, vals: &mut Vec<Option<String>>,
            flats: &mut Vec<Option<Flat>>, e: &mut Vec<Er>) -> R<()>
{
    let mut lists: Vec<Vec<String>> = fields.iter().map(|_| vec![]).collect();
    'nodes: for c in nodes {
        for (i, f) in fields.iter().enumerate() {
            match f.role {
                Role::Child(name) if name == c.name.0 => {
                    if vals[i].is_some() { return Err(dup(c)) }
                    let v = child(f, c, e)?;
                    vals[i] = Some(if f.opt { format!("Some({})", v) } else { v });
                    continue 'nodes;
                }
                Role::Multi(name) if name == c.name.0 => { lists[i].push(child(f, c, e)?); continue 'nodes }
                Role::Flag(name) if name == c.name.0 => {
                    no_content(c, e);
                    if vals[i].is_some() { e.push(dup(c)) }
                    vals[i] = Some("true".into());
                    continue 'nodes;
                }
                Role::Flatten { c: true, .. } => if flats[i].as_mut().unwrap().child(c, e)? { continue 'nodes },
                _ => {}
            }
        }
        for (i, f) in fields.iter().enumerate() {
            if let Role::Children = f.role { lists[i].push(child(f, c, e)?); continue 'nodes }
        }
        e.push(one(&c.sp, &["unexpected node", &esc(&c.name.0)]));
    }
    for (i, f) in fields.iter().enumerate() {
        match f.role {
            Role::Child(name) if vals[i].is_none() => vals[i] = Some(match &f.dflt {
                Some(d) => d.clone(),
                None if f.opt => "None".into(),
                None => return Err(Er { at: whose, words: vec!["child node".into(), format!("`{}`", name), "required".into()] }),
            }),
            Role::Flag(_) if vals[i].is_none() => vals[i] = Some("false".into()),
            Role::Multi(_) | Role::Children => {
                let v = std::mem::take(&mut lists[i]);
                vals[i] = Some(match (v.is_empty(), f.opt, &f.dflt) {
                    (true, _, Some(d)) => d.clone(),
                    (true, true, None) => "None".into(),
                    (_, true, _) => format!("Some({})", list(v)),
                    _ => list(v),
                });
            }
            _ => {}
        }
    }
    Ok(())
}

fn root(s: &Schema, nodes: &[XNode], e: &mut Vec<Er>) -> R<String> {
    let Schema::Struct { name, fields } = s else { unreachable!() };
    let mut vals: Vec<Option<String>> = fields.iter().map(|_| None).collect();
    let mut flats: Vec<Option<Flat>> = fields.iter().map(|f| match (&f.role, &f.dec) {
        (Role::Flatten { .. }, Dec::Node(s)) => Some(Flat::new(s())),
        _ => None,
    }).collect();
    children(fields, nodes, None, &mut vals, &mut flats, e)?;
    Ok(whole(name, fields.iter().enumerate().map(|(i, f)| (f.id, match &f.role {
        Role::Flatten { .. } => flats[i].as_ref().unwrap().show(),
        Role::Extra => f.dflt.clone().unwrap(),
        _ => vals[i].clone().unwrap_or_default(),
    })).collect()))
}

// ---- comparison ---------------------------------------------------------------

fn judge(what: &str, want: R<String>, mut errs: Vec<Er>, got: &Out, words: bool) -> Option<String> {
    let bad = |errs: &[Er], w: &str, x: String| Some(format!("{}: {}; expected {:?}, got {:?}{}", what, w, errs, got, x));
    let val = match want {
        Ok(v) => Some(v),
        Err(e) => { errs.push(e); None }
    };
    match (got, errs.is_empty()) {
        (Ok(v), true) => {
            if Some(v) != val.as_ref() { return bad(&errs, "wrong value", format!(", not {:?}", val)) }
        }
        (Ok(_), false) => return bad(&errs, "accepted although there are errors", String::new()),
        (Err(_), true) => return bad(&errs, "rejected although there are no errors", format!(", value {:?}", val)),
        (Err(g), false) => {
            if g.len() != errs.len() { return bad(&errs, "wrong errors", String::new()) }
            for (x, y) in errs.iter().zip(g) {
                let place = match x.at {
                    None => y.labels.is_empty(),
                    Some(a) => y.labels.len() == 1 && (y.labels[0].0, y.labels[0].1) == a,
                };
                if !place { return bad(&errs, "error at a wrong place", format!(": {:?} for {:?}", y, x)) }
                if words && !x.words.iter().all(|w| y.msg.contains(&w[..])) {
                    return bad(&errs, "the message does not tell what is wrong", format!(": {:?} for {:?}", y, x));
                }
            }
        }
    }
    None
}

fn check(ty: &Type, t: &str, words: bool) -> Verdict {
    let f = || {
        let a: Document<Span> = match knuffel::parse_ast("f.kdl", t) { Ok(d) => d, Err(_) => return Verdict::Trivial };
        let b: Document<LineSpan> = match knuffel::parse_ast("f.kdl", t) { Ok(d) => d, Err(_) => return Verdict::Trivial };
        let s = (ty.schema)();
        let xs = real::doc(&a);
        for (i, x) in xs.iter().enumerate() {
            let mut outs = vec![(ty.a)(&a.nodes[i])];
            if let Some(f) = ty.b { outs.push(f(&b.nodes[i])) }
            for got in outs {
                let mut e = vec![];
                let want = node(&s, x, &mut e);
                if let Some(w) = judge(ty.name, want, e, &got, words) { return Verdict::Bad(w) }
            }
        }
        if let Some((f, g)) = ty.root {
            for got in [f(t), g(t)] {
                let Ok(got) = got else { return Verdict::Bad(format!("{} as root: no result", ty.name)) };
                let mut e = vec![];
                let want = root(&s, &xs, &mut e);
                if let Some(w) = judge(&format!("{} as root", ty.name), want, e, &got, words) { return Verdict::Bad(w) }
            }
        }
        Verdict::Good
    };
    match real::guard(f) {
        Ok(v) => v,
        Err(p) => Verdict::Bad(format!("{}: panic: {}", ty.name, p)),
    }
}

// ---- documents that fit a declaration, more or less ----------------------------

fn quote(s: &str) -> String { format!("{:?}", s).replace("\\'", "'") }
fn name_text(r: &mut Rng, s: &str) -> String {
    let plain = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphabetic() || c == '-') && !s.starts_with('-')
        && !["true", "false", "null"].contains(&s);
    if plain && !r.chance(1, 8) { s.into() } else { quote(s) }
}

fn any_value(r: &mut Rng) -> String {
    r.pick(&["1", "-1", "0", "300", "1.5", "true", "false", "null", "\"x\"", "\"12\"", "\"\"", "\"first\"", "(u8)1",
             "(i32)2", "(i32)70000000000", "(base64)\"AAA=\"", "(base64)\"AA\"", "(x)\"y\"", "\"only\"", "(x)null",
             "\"second-one\"", "\"SecondOne\"", "\"http-server\"", "\"type\"", "\"r#type\"", "(f64)2.5", "0x10"]).to_string()
}

fn good_value(r: &mut Rng, d: &Dec) -> String {
    match d {
        Dec::Scalar(ex) => {
            for _ in 0..12 {
                let t = any_value(r);
                if let Ok(d) = knuffel::parse_ast::<Span>("f", &format!("n {}", t)) {
                    let e = ex(&real::value(&d.nodes[0].arguments[0]));
                    if e.ty.is_none() && e.lit.is_none() { return t }
                }
            }
            any_value(r)
        }
        Dec::ScalarEnum(n, _) => quote(n[r.below(n.len())].0),
        Dec::Str(_) => r.pick(&["\"1\"", "\"22\"", "\"-3\"", "\"x\"", "\"007\""]).to_string(),
        Dec::Bytes(_) => r.pick(&["\"\"", "\"ab\"", "\"abc\"", "(base64)\"AAA=\"", "(base64)\"AAAA\"", "\"éa\""]).to_string(),
        _ => any_value(r),
    }
}

fn val(r: &mut Rng, d: &Dec, wild: usize) -> String {
    if r.chance(1, wild) { any_value(r) } else if r.chance(1, 12) { "null".into() } else { good_value(r, d) }
}

const NAMES: &[&str] = &["a", "b", "c", "d", "x", "y", "k", "p", "item", "one", "unknown", "b-b", "", "1", "flag", "alpha", "first"];

fn doc_name(r: &mut Rng, s: &Schema) -> String {
    match s {
        Schema::Enum { variants } if !r.chance(1, 10) => variants[r.below(variants.len())].0.into(),
        Schema::New { of, .. } => doc_name(r, &of()),
        _ => r.pick(&["node", "n", "12", "alpha", "x", "hidden", "Alpha", "beta_gamma", "h-t-t-p-server"]).to_string(),
    }
}

fn make_node(r: &mut Rng, s: &Schema, name: &str, depth: usize, wild: usize) -> String {
    let mut t = String::new();
    let mut want_type = false;
    let empty = vec![];
    let mut inner = None;
    let fields: &Vec<Fld> = match s {
        Schema::Struct { fields, .. } => {
            want_type = fields.iter().any(|f| matches!(f.role, Role::TypeName));
            fields
        }
        Schema::New { of, .. } => {
            if r.chance(1, 4) { &empty } else { inner = Some(of()); &empty }
        }
        Schema::Enum { variants } => match variants.iter().find(|v| v.0 == name) {
            Some((_, _, VKind::Tuple(f))) => f,
            Some((_, _, VKind::Nested { of, .. })) => { if !r.chance(1, 4) { inner = Some(of()) } &empty }
            _ => &empty,
        },
    };
    if let Some(i) = inner { return make_node(r, &i, name, depth, wild) }
    if if want_type { r.chance(3, 4) } else { r.chance(1, 4 * wild) } {
        t.push_str(r.pick(&["(5)", "(\"5\")", "(tt)", "(u8)", "(\"12\")"]).replace("(5)", "(\"-5\")").as_str());
    }
    t.push_str(&name_text(r, name));
    t.push_str(&make_items(r, fields, depth, wild));
    t
}

fn flat_fields(fields: &[Fld], c: bool, p: bool, out: &mut Vec<Fld>) {
    let _ = (c, p);
    for f in fields {
        if let (Role::Flatten { .. }, Dec::Node(s)) = (&f.role, &f.dec) {
            if let Schema::Struct { fields, .. } = s() {
                let mut sub = vec![];
                flat_fields(&fields, c, p, &mut sub);
                out.extend(sub);
                out.extend(fields);
            }
        }
    }
}

fn make_items(r: &mut Rng, fields: &[Fld], depth: usize, wild: usize) -> String {
    let mut t = String::new();
    let mut its: Vec<String> = vec![];
    let mut kids: Vec<String> = vec![];
    let mut extra = vec![];
    flat_fields(fields, true, true, &mut extra);
    let mut stop_args = false;
    let n = fields.len();
    for (k, f) in fields.iter().chain(&extra).enumerate() {
        let skip = if f.opt || f.dflt.is_some() || k >= n { r.chance(1, 2) } else { r.chance(1, 2 * wild) };
        match &f.role {
            Role::Arg if !stop_args => if skip { stop_args = true } else { its.push(val(r, &f.dec, wild)) },
            Role::Args(_) if !stop_args => for _ in 0..r.below(4) { its.push(val(r, &f.dec, wild)) },
            Role::Prop(p) if !skip => its.push(format!("{}={}", name_text(r, p), val(r, &f.dec, wild))),
            Role::Props(..) => for _ in 0..r.below(4) {
                let k = *r.pick(NAMES);
                let k = if r.chance(1, 2) { format!("{}", r.below(20)) } else { k.into() };
                its.push(format!("{}={}", quote(&k), val(r, &f.dec, wild)))
            },
            Role::Child(c) if !skip => {
                let m = if r.chance(1, 3 * wild) { 2 } else { 1 };
                for _ in 0..m { kids.push(make_child(r, f, c, depth, wild)) }
            }
            Role::Flag(c) if r.chance(1, 2) => {
                let m = if r.chance(1, 3 * wild) { 2 } else { 1 };
                for _ in 0..m {
                    kids.push(match r.below(2 * wild) { 0 => format!("{} 1", c), 1 => format!("{} a=1 {{ x; }}", c), _ => c.to_string() })
                }
            }
            Role::Multi(c) => for _ in 0..r.below(4) { kids.push(make_child(r, f, c, depth, wild)) },
            Role::Children => for _ in 0..r.below(3) {
                let name = match &f.dec {
                    Dec::Node(s) => doc_name(r, &s()),
                    _ => r.pick(NAMES).to_string(),
                };
                kids.push(make_child(r, f, &name, depth, wild))
            },
            _ => {}
        }
    }
    if r.chance(1, 4 * wild) { its.push(any_value(r)) }
    if r.chance(1, 4 * wild) { let k = *r.pick(NAMES); let v = any_value(r); its.push(format!("{}={}", quote(k), v)) }
    if r.chance(1, 4 * wild) { let k = *r.pick(NAMES); kids.push(name_text(r, k)) }
    // properties anywhere, repeated ones too
    if r.chance(1, 3) {
        for _ in 0..its.len() {
            let (i, j) = (r.below(its.len()), r.below(its.len()));
            if its[i].contains('=') || its[j].contains('=') || r.chance(1, 8) { its.swap(i, j) }
        }
    }
    if !its.is_empty() && r.chance(1, 3 * wild) { let k = r.below(its.len()); let x = its[k].clone(); its.push(x) }
    for i in its { t.push(' '); t.push_str(&i) }
    if r.chance(1, 2) {
        for _ in 0..kids.len() { let (i, j) = (r.below(kids.len()), r.below(kids.len())); kids.swap(i, j) }
    }
    if !kids.is_empty() || r.chance(1, 10) {
        t.push_str(" {\n");
        for k in kids { t.push_str("  "); t.push_str(&k); t.push_str(r.pick(&["\n", "; "])) }
        t.push('}');
    }
    t
}

fn make_child(r: &mut Rng, f: &Fld, name: &str, depth: usize, wild: usize) -> String {
    if depth == 0 { return name_text(r, name) }
    match &f.dec {
        Dec::Node(s) => make_node(r, &s(), name, depth - 1, wild),
        Dec::Unwrap(i) => {
            let mut t = name_text(r, name);
            t.push_str(&make_items(r, std::slice::from_ref(&**i), depth - 1, wild));
            t
        }
        _ => name_text(r, name),
    }
}

fn make_doc(r: &mut Rng, ty: &Type) -> String {
    let s = (ty.schema)();
    let wild = *r.pick(&[2usize, 4, 12, 100]);
    if let (Some(_), true, Schema::Struct { fields, .. }) = (ty.root, r.chance(1, 2), &s) {
        // as the root: the text of the children block alone
        let t = make_items(r, fields, 4, wild);
        if let Some(i) = t.find(" {\n") { return t[i + 3..t.len() - 1].to_string() }
        return String::new();
    }
    let mut t = String::new();
    for _ in 0..1 + r.below(2) {
        let name = doc_name(r, &s);
        t.push_str(&make_node(r, &s, &name, 4, wild));
        t.push('\n');
    }
    t
}

/// small texts over the declared names: every one of them
fn pool(s: &Schema) -> (Vec<String>, Vec<String>) {
    let mut items: Vec<String> = vec!["1".into(), "\"x\"".into(), "unknown=1".into()];
    let mut kids: Vec<String> = vec!["unknown; ".into()];
    let fields = match s {
        Schema::Struct { fields, .. } => fields,
        _ => return (items, kids),
    };
    let mut all = vec![];
    flat_fields(fields, true, true, &mut all);
    for f in fields.iter().chain(&all) {
        match &f.role {
            Role::Prop(p) => { items.push(format!("{}=1", quote(p))); items.push(format!("{}=\"x\"", quote(p))) }
            Role::Child(c) | Role::Multi(c) | Role::Flag(c) => {
                kids.push(format!("{}; ", quote(c)));
                kids.push(format!("{} 1; ", quote(c)));
            }
            _ => {}
        }
    }
    items.sort(); items.dedup();
    kids.sort(); kids.dedup();
    (items, kids)
}

fn main() {
    let c = Ctx::new();
    let id = c.args.id.clone();
    let all = types::all();
    let words = id == "C23";
    let mine: Vec<&Type> = all.iter().filter(|t| words || t.props.split(',').any(|p| p == id)).collect();
    c.rule(&format!("{} declarations that use the derive, decoded from every short sequence of declared and undeclared \
                     items and from random documents that fit the declaration more or less; values, number, order and \
                     places of errors compared to a reference interpreter of the declaration", mine.len()));
    let n = 150_000 / mine.len().max(4) as u64;
    for ty in &mine {
        let (items, kids) = pool(&(ty.schema)());
        let (i, k): (Vec<&str>, Vec<&str>) = (items.iter().map(|s| &s[..]).collect(), kids.iter().map(|s| &s[..]).collect());
        let len = |n: usize| if n <= 6 { 4 } else if n <= 14 { 3 } else { 2 };
        let spaced: Vec<String> = i.iter().map(|s| format!(" {}", s)).collect();
        let spaced: Vec<&str> = spaced.iter().map(|s| &s[..]).collect();
        let name = match (ty.schema)() { Schema::Enum { variants } => variants[0].0.to_string(), _ => "node".into() };
        let f = |t: &str| check(ty, t, words);
        c.tokens(&format!("{}-items", ty.name), &spaced, len(i.len()), (&name, ""), &f);
        c.tokens(&format!("{}-kids", ty.name), &k, len(k.len()), (&format!("{} {{ ", name), "}"), &f);
        if ty.root.is_some() { c.tokens(&format!("{}-root", ty.name), &k, len(k.len()), ("", ""), &f) }
        c.random(ty.name, n, &|r| make_doc(r, ty), &f);
        c.random(&format!("{}-any", ty.name), n / 12, &|r| gen::document(r), &f);
    }
    kharness::finish(&c.rep);
}
