//! Runs the real crate and turns what it returns into plain data.
use knuffel::ast::{Document, Literal, SpannedNode, Value};
use knuffel::span::{LineSpan, Span};
use knuffel::traits;
use miette::Diagnostic;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::refp::{self, Lit, Pos};

/// A span as plain data: byte offsets and, with line tracking, positions
#[derive(Clone, Debug, PartialEq)]
pub struct XSpan {
    pub start: usize,
    pub end: usize,
    pub lines: Option<(Pos, Pos)>,
}

pub trait SpanKind: traits::Span + Sized {
    const LINES: bool;
    fn plain(&self) -> XSpan;
}

impl SpanKind for Span {
    const LINES: bool = false;
    fn plain(&self) -> XSpan {
        XSpan { start: self.0, end: self.1, lines: None }
    }
}

impl SpanKind for LineSpan {
    const LINES: bool = true;
    fn plain(&self) -> XSpan {
        let p = |l: &knuffel::span::LinePos| Pos {
            offset: l.offset, line: l.line, column: l.column };
        XSpan { start: self.0.offset, end: self.1.offset,
                lines: Some((p(&self.0), p(&self.1))) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct XVal { pub ty: Option<(String, XSpan)>, pub lit: Lit, pub sp: XSpan }
#[derive(Clone, Debug, PartialEq)]
pub struct XNode {
    pub ty: Option<(String, XSpan)>,
    pub name: (String, XSpan),
    pub args: Vec<XVal>,
    pub props: Vec<(String, XSpan, XVal)>,
    pub children: Option<(Vec<XNode>, XSpan)>,
    pub sp: XSpan,
}

#[derive(Clone, Debug, PartialEq)]
pub struct XErr {
    pub msg: String,
    pub help: Option<String>,
    pub labels: Vec<(usize, usize, String)>, // start, end, text
}

#[derive(Clone, Debug, PartialEq)]
pub enum XOut<T> {
    Ok(T),
    Err(Vec<XErr>),
    Panic(String),
}

/// `Integer(Dec, "12")`, from the derived Debug representation
fn int_parts(d: &str) -> Option<(u32, String)> {
    let rest = d.strip_prefix("Integer(")?.strip_suffix(')')?;
    let (radix, digits) = rest.split_once(", ")?;
    let radix = match radix {
        "Bin" => 2, "Oct" => 8, "Dec" => 10, "Hex" => 16,
        _ => return None,
    };
    Some((radix, digits.strip_prefix('"')?.strip_suffix('"')?.to_string()))
}

fn dec_parts(d: &str) -> Option<String> {
    let rest = d.strip_prefix("Decimal(")?.strip_suffix(')')?;
    Some(rest.strip_prefix('"')?.strip_suffix('"')?.to_string())
}

pub fn literal(l: &Literal) -> Lit {
    match l {
        Literal::Null => Lit::Null,
        Literal::Bool(b) => Lit::Bool(*b),
        Literal::String(s) => Lit::Str(s.to_string()),
        Literal::Int(i) => {
            let d = format!("{:?}", i);
            let (r, s) = int_parts(&d).unwrap_or((0, d));
            Lit::Int(r, s)
        }
        Literal::Decimal(i) => {
            let d = format!("{:?}", i);
            Lit::Dec(dec_parts(&d).unwrap_or(d))
        }
    }
}

pub fn value<S: SpanKind>(v: &Value<S>) -> XVal {
    XVal {
        ty: v.type_name.as_ref()
            .map(|t| (t.as_str().to_string(), t.span().plain())),
        lit: literal(&v.literal),
        sp: v.literal.span().plain(),
    }
}

pub fn node<S: SpanKind>(n: &SpannedNode<S>) -> XNode {
    XNode {
        ty: n.type_name.as_ref()
            .map(|t| (t.as_str().to_string(), t.span().plain())),
        name: (n.node_name.to_string(), n.node_name.span().plain()),
        args: n.arguments.iter().map(value).collect(),
        props: n.properties.iter()
            .map(|(k, v)| (k.to_string(), k.span().plain(), value(v)))
            .collect(),
        children: n.children.as_ref()
            .map(|c| (c.iter().map(node).collect(), c.span().plain())),
        sp: n.span().plain(),
    }
}

pub fn doc<S: SpanKind>(d: &Document<S>) -> Vec<XNode> {
    d.nodes.iter().map(node).collect()
}

pub fn diag(d: &dyn Diagnostic) -> XErr {
    XErr {
        msg: d.to_string(),
        help: d.help().map(|h| h.to_string()),
        labels: d.labels().map(|ls| ls.map(|l| {
            (l.offset(), l.offset() + l.len(),
             l.label().unwrap_or("").to_string())
        }).collect()).unwrap_or_default(),
    }
}

pub fn errors(e: &knuffel::Error) -> Vec<XErr> {
    e.related().map(|it| it.map(|d| diag(d)).collect()).unwrap_or_default()
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn parse_doc<S: SpanKind>(text: &str) -> XOut<Document<S>> {
    match guard(|| knuffel::parse_ast::<S>("file.kdl", text)) {
        Ok(Ok(d)) => XOut::Ok(d),
        Ok(Err(e)) => match guard(|| errors(&e)) {
            Ok(v) => XOut::Err(v),
            Err(p) => XOut::Panic(p),
        },
        Err(p) => XOut::Panic(p),
    }
}

pub fn parse<S: SpanKind>(text: &str) -> XOut<Vec<XNode>> {
    match parse_doc::<S>(text) {
        XOut::Ok(d) => XOut::Ok(doc(&d)),
        XOut::Err(e) => XOut::Err(e),
        XOut::Panic(p) => XOut::Panic(p),
    }
}

pub fn chars(text: &str) -> Vec<char> { text.chars().collect() }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect { Accept, Content, Spans, Lines }

/// Compares one text with the reference on the given aspects
pub struct Cmp<'a> {
    pub chars: &'a [char],
    off: Vec<usize>,
    pos: Option<Vec<Pos>>,
    content: bool,
    spans: bool,
}

impl<'a> Cmp<'a> {
    pub fn new(chars: &'a [char], aspects: &[Aspect]) -> Cmp<'a> {
        let lines = aspects.contains(&Aspect::Lines);
        Cmp {
            chars,
            off: refp::offsets(chars),
            pos: if lines { Some(refp::positions(chars)) } else { None },
            content: aspects.contains(&Aspect::Content),
            spans: lines || aspects.contains(&Aspect::Spans),
        }
    }
    fn sp(&self, what: &str, want: refp::Sp, got: &XSpan)
        -> Result<(), String>
    {
        if !self.spans { return Ok(()) }
        let (a, b) = (self.off[want.0], self.off[want.1]);
        if got.start != a || got.end != b {
            return Err(format!("span of {}: expected {}..{}, got {}..{}",
                               what, a, b, got.start, got.end));
        }
        if let (Some(p), Some((s, e))) = (&self.pos, &got.lines) {
            if *s != p[want.0] || *e != p[want.1] {
                return Err(format!(
                    "position of {}: expected {:?}..{:?}, got {:?}..{:?}",
                    what, p[want.0], p[want.1], s, e));
            }
        }
        Ok(())
    }
    fn ty(&self, what: &str, want: &Option<(String, refp::Sp)>,
          got: &Option<(String, XSpan)>) -> Result<(), String>
    {
        match (want, got) {
            (None, None) => Ok(()),
            (Some(w), Some(g)) => {
                if self.content && w.0 != g.0 {
                    return Err(format!("{}: expected type name {:?}, got {:?}",
                                       what, w.0, g.0));
                }
                self.sp(&format!("type name of {}", what), w.1, &g.1)
            }
            _ if !self.content => Err("~".into()),
            _ => Err(format!("{}: expected type name {:?}, got {:?}",
                             what, want, got)),
        }
    }
    fn val(&self, what: &str, want: &refp::Val, got: &XVal)
        -> Result<(), String>
    {
        self.ty(what, &want.ty, &got.ty)?;
        if self.content && want.lit != got.lit {
            return Err(format!("{}: expected {:?}, got {:?}",
                               what, want.lit, got.lit));
        }
        self.sp(what, want.sp, &got.sp)
    }
    fn node(&self, path: &str, want: &refp::Node, got: &XNode)
        -> Result<(), String>
    {
        let me = format!("{}/{}", path, want.name.0);
        if self.content && want.name.0 != got.name.0 {
            return Err(format!("{}: expected name {:?}, got {:?}",
                               me, want.name.0, got.name.0));
        }
        self.ty(&me, &want.ty, &got.ty)?;
        self.sp(&format!("name of {}", me), want.name.1, &got.name.1)?;
        if want.args.len() != got.args.len() {
            if !self.content { return Err("~".into()) }
            return Err(format!("{}: expected {} arguments, got {}",
                               me, want.args.len(), got.args.len()));
        }
        for (i, (w, g)) in want.args.iter().zip(&got.args).enumerate() {
            self.val(&format!("{} argument {}", me, i), w, g)?;
        }
        let wn: Vec<&str> = want.props.iter().map(|p| &p.name[..]).collect();
        let gn: Vec<&str> = got.props.iter().map(|p| &p.0[..]).collect();
        if wn != gn {
            if !self.content { return Err("~".into()) }
            return Err(format!("{}: expected properties {:?}, got {:?}",
                               me, wn, gn));
        }
        for (w, g) in want.props.iter().zip(&got.props) {
            let pn = format!("{} property {}", me, w.name);
            self.val(&pn, &w.val, &g.2)?;
            let mut last = Ok(());
            for sp in &w.names {
                last = self.sp(&format!("name of {}", pn), *sp, &g.1);
                if last.is_ok() { break }
            }
            last?;
        }
        match (&want.children, &got.children) {
            (None, None) => {}
            (Some(w), Some(g)) => {
                self.sp(&format!("children of {}", me), w.1, &g.1)?;
                self.nodes(&me, &w.0, &g.0)?;
            }
            _ if !self.content => return Err("~".into()),
            (w, g) => return Err(format!(
                "{}: children expected {}, got {}", me,
                if w.is_some() { "present" } else { "absent" },
                if g.is_some() { "present" } else { "absent" })),
        }
        self.sp(&format!("node {}", me), want.sp, &got.sp)
    }
    pub fn nodes(&self, path: &str, want: &[refp::Node], got: &[XNode])
        -> Result<(), String>
    {
        if want.len() != got.len() {
            if !self.content { return Err("~".into()) }
            return Err(format!(
                "{}/: expected {} nodes {:?}, got {} {:?}", path,
                want.len(), want.iter().map(|n| &n.name.0).collect::<Vec<_>>(),
                got.len(), got.iter().map(|n| &n.name.0).collect::<Vec<_>>()));
        }
        for (w, g) in want.iter().zip(got) {
            self.node(path, w, g)?;
        }
        Ok(())
    }
}

/// None: agrees. Some(description): differs on one of the aspects.
/// Differences that belong to an aspect not asked for are ignored.
pub fn compare(text: &str, aspects: &[Aspect]) -> Option<String> {
    let chars = chars(text);
    let want = refp::read(&chars);
    if want.ambiguous { return None }
    fn go<S: SpanKind>(text: &str, chars: &[char], want: &refp::Outcome,
                       aspects: &[Aspect]) -> Option<String>
    {
        match parse::<S>(text) {
            XOut::Panic(p) => Some(format!("panic: {}", p)),
            XOut::Ok(got) => match &want.doc {
                None => if aspects.contains(&Aspect::Accept) {
                    Some("malformed text was accepted".into())
                } else {
                    None
                }
                Some(doc) => match Cmp::new(chars, aspects)
                    .nodes("", doc, &got)
                {
                    Err(m) if m != "~" => Some(m),
                    _ => None,
                }
            }
            XOut::Err(e) => match &want.doc {
                None => {
                    if e.is_empty() {
                        Some("failure without an error".into())
                    } else {
                        None
                    }
                }
                Some(_) => if aspects.contains(&Aspect::Accept) {
                    Some(format!("well formed text was rejected: {}",
                        e.first().map(|e| &e.msg[..]).unwrap_or("?")))
                } else {
                    None
                }
            }
        }
    }
    if aspects.contains(&Aspect::Lines) {
        go::<LineSpan>(text, &chars, &want, aspects)
    } else {
        go::<Span>(text, &chars, &want, aspects)
    }
}
