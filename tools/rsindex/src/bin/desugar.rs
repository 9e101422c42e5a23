// Rewrites the expansion of the derive macros into the subset the verifier takes.  Every rewrite replaces an
// expression by what the called library function is defined to do with the closure it is given; anything of
// another shape is left as it is (and the verifier then refuses the function, which is reported as undecided).
use quote::{format_ident, ToTokens};
use syn::{parse_quote, visit::Visit, visit_mut::{self, VisitMut}, Block, Expr, Ident, Item, ItemFn, Pat, Stmt};

struct D { prefix: String, lifted: Vec<ItemFn>, n: usize }

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    match peel(e) { Expr::Closure(c) if c.inputs.len() == 1 && c.capture.is_none() => Some((c.inputs[0].clone(), (*c.body).clone())), _ => None }
}
fn closure0(e: &Expr) -> Option<Expr> {
    match peel(e) { Expr::Closure(c) if c.inputs.is_empty() && c.capture.is_none() => Some((*c.body).clone()), _ => None }
}
struct Esc(bool);
impl<'a> Visit<'a> for Esc {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
}
fn escapes(e: &Expr) -> bool { let mut x = Esc(false); x.visit_expr(e); x.0 }
fn tries(e: &Expr) -> bool {
    struct T(bool);
    impl<'a> Visit<'a> for T {
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    }
    let mut x = T(false); x.visit_expr(e); x.0
}
fn is_none(e: &Expr) -> bool { matches!(peel(e), Expr::Path(p) if p.path.is_ident("None")) }
/// F(x): the argument
fn ctor<'a>(e: &'a Expr, name: &str) -> Option<&'a Expr> {
    match peel(e) {
        Expr::Call(c) if c.args.len() == 1 => match peel(&c.func) { Expr::Path(p) if p.path.is_ident(name) => Some(&c.args[0]), _ => None },
        _ => None,
    }
}
/// `return None` => continue, `return Some(Err(e))` => return Err(e): leaving the closure of a flat_map
struct Ret { ok: bool, acc: bool }
impl VisitMut for Ret {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            match &r.expr {
                Some(x) if is_none(x) => { *e = parse_quote!(continue); return; }
                Some(x) => {
                    if let Some(y) = ctor(x, "Some") {
                        if let Some(z) = ctor(y, "Err") { let z = z.clone(); *e = parse_quote!(return Err(#z)); return; }
                        if let Some(z) = ctor(y, "Ok") { if self.acc { let z = z.clone(); *e = parse_quote!({ __acc.push(#z); continue }); return; } }
                    }
                    self.ok = false;
                }
                None => self.ok = false,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `_ if g => b` in the middle of a match: an if
fn unguard(m: &syn::ExprMatch) -> Option<Expr> {
    let k = m.arms.iter().position(|a| a.guard.is_some())?;
    if !matches!(m.arms[k].pat, Pat::Wild(_)) { return None; }
    let scr = &m.expr;
    let g = &m.arms[k].guard.as_ref().unwrap().1;
    let b = &m.arms[k].body;
    let head = &m.arms[..k];
    let rest: Vec<syn::Arm> = m.arms[k + 1..].iter().cloned().map(|mut a| { a.comma = Some(Default::default()); a }).collect();
    let tail: Expr = parse_quote!({ if #g { #b } else { match #scr { #(#rest)* } } });
    Some(if head.is_empty() { tail } else {
        let head: Vec<syn::Arm> = head.iter().cloned().map(|mut a| { a.comma = Some(Default::default()); a }).collect();
        parse_quote!(match #scr { #(#head)* _ => #tail })
    })
}
/// `if match s { p => true, q => false, r => return x } t else f`, as the last thing of a loop's body
fn if_match(c: &Expr, t: &Block, f: &Expr) -> Option<Expr> {
    let Expr::Match(m) = peel(c) else { return None };
    let mut m = m.clone();
    for a in &mut m.arms {
        if a.guard.is_some() { return None; }
        let b: Expr = match peel(&a.body) {
            Expr::Return(r) => parse_quote!({ #r; }),
            Expr::Continue(c) if c.label.is_none() => parse_quote!({}),
            Expr::Lit(l) => match &l.lit { syn::Lit::Bool(b) if b.value => parse_quote!(#t), syn::Lit::Bool(_) => parse_quote!({ #f }), _ => return None },
            _ => return None,
        };
        *a.body = b; a.comma = None;
    }
    Some(Expr::Match(m))
}
fn flat_stmt(e: &Expr, acc: bool) -> Expr {
    let e = peel(e);
    if is_none(e) { return parse_quote!({}); }
    if let Some(x) = ctor(e, "Some") {
        if let Some(y) = ctor(x, "Err") { return parse_quote!({ return Err(#y); }); }
        if let Some(y) = ctor(x, "Ok") { return if acc { parse_quote!({ __acc.push(#y); }) } else { parse_quote!({ #y; }) }; }
    }
    match e {
        Expr::Block(b) if b.label.is_none() => { let b = flat_block(&b.block, acc); return parse_quote!(#b); }
        Expr::If(i) => {
            let (c, t) = (&i.cond, flat_block(&i.then_branch, acc));
            if let Some((_, x)) = &i.else_branch {
                let x = flat_stmt(x, acc);
                if let Some(e) = if_match(c, &t, &x) { return e; }
                return match &x { Expr::Block(_) | Expr::If(_) => parse_quote!(if #c #t else #x), _ => parse_quote!(if #c #t else { #x }) };
            }
        }
        Expr::Match(m) => {
            if let Some(e) = unguard(m) { return flat_stmt(&e, acc); }
            let mut m = m.clone();
            for a in &mut m.arms { let x = flat_stmt(&a.body, acc); *a.body = match x { Expr::Block(_) => x, x => parse_quote!({ #x }) }; a.comma = None; }
            return Expr::Match(m);
        }
        _ => {}
    }
    if acc { parse_quote!(match #e { Some(Err(e)) => { return Err(e); } Some(Ok(v)) => { __acc.push(v); } None => {} }) }
    else { parse_quote!(match #e { Some(Err(e)) => { return Err(e); } Some(Ok(v)) => {} None => {} }) }
}
fn flat_block(b: &Block, acc: bool) -> Block {
    let mut b = b.clone();
    match b.stmts.pop() {
        Some(Stmt::Expr(e, None)) => { let x = flat_stmt(&e, acc); b.stmts.push(Stmt::Expr(x, None)); }
        Some(s) => b.stmts.push(s),
        None => {}
    }
    b
}
impl D {
    fn fresh(&mut self) -> usize { self.n += 1; self.n }
    fn rewrite(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Try(t) => {
                // I.flat_map(|p| B).collect::<Result<_, _>>()? and I.map(|p| B).collect::<Result<_, _>>()?
                let Expr::MethodCall(c) = peel(&t.expr) else { return None };
                if c.method != "collect" { return None; }
                let tf = c.turbofish.as_ref()?.args.to_token_stream().to_string().replace(' ', "");
                if !tf.starts_with("Result<") { return None; }
                let unit = tf.starts_with("Result<(),");
                let Expr::MethodCall(m) = peel(&c.receiver) else { return None };
                let flat = m.method == "flat_map";
                if !(flat || m.method == "map") || m.args.len() != 1 { return None; }
                let (p, b) = closure1(&m.args[0])?;
                if tries(&b) { return None; }
                let body: Expr = if flat {
                    let mut b = b; let mut r = Ret { ok: true, acc: !unit };
                    // the value of the closure first: what it returns early has the same meaning
                    r.visit_expr_mut(&mut b);
                    if !r.ok { return None; }
                    flat_stmt(&b, !unit)
                } else {
                    if escapes(&b) { return None; }
                    if unit { parse_quote!({ (#b)?; }) } else { parse_quote!({ __acc.push((#b)?); }) }
                };
                let r = &m.receiver;
                let lp: Expr = match peel(r) {
                    Expr::MethodCall(i) if i.method == "iter" => parse_quote!(for #p in #r { #body }),
                    Expr::Path(_) => parse_quote!(loop { match #r.next() { None => { break; } Some(#p) => { #body } } }),
                    _ => return None,
                };
                Some(if unit { parse_quote!({ #lp }) } else { parse_quote!({ let mut __acc = Vec::new(); #lp; from_vec(__acc) }) })
            }
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("transpose", 0) => {
                        let Expr::MethodCall(i) = peel(r) else { return None };
                        if i.method != "map" || i.args.len() != 1 { return None; }
                        let (p, b) = closure1(&i.args[0])?;
                        if escapes(&b) { return None; }
                        let x = &i.receiver;
                        Some(parse_quote!(match #x { Some(#p) => match #b { Ok(__v) => Ok(Some(__v)), Err(__e) => Err(__e) }, None => Ok(None) }))
                    }
                    ("ok_or_else", 1) => { let b = closure0(&m.args[0])?; if escapes(&b) { return None; } Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })) }
                    ("unwrap_or_else", 1) => { let b = closure0(&m.args[0])?; if escapes(&b) { return None; } Some(parse_quote!(match #r { Some(__v) => __v, None => #b })) }
                    ("unwrap_or", 1) => {
                        let b = &m.args[0];
                        // evaluated in any case: only an empty slice
                        match peel(b) { Expr::Reference(x) => match peel(&x.expr) { Expr::Array(a) if a.elems.is_empty() => {} _ => return None }, _ => return None }
                        Some(parse_quote!(match #r { Some(__v) => __v, None => empty_slice() }))
                    }
                    ("and_then", 1) => { let (p, b) = closure1(&m.args[0])?; if escapes(&b) { return None; } Some(parse_quote!(match #r { Some(#p) => #b, None => None })) }
                    ("map_err", 1) => { let (p, b) = closure1(&m.args[0])?; if escapes(&b) { return None; } Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })) }
                    ("map", 1) => {
                        if let Expr::Path(p) = peel(&m.args[0]) { return Some(parse_quote!(match #r { Ok(__v) => Ok(#p(__v)), Err(__e) => Err(__e) })); }
                        let (p, b) = closure1(&m.args[0])?;
                        if escapes(&b) { return None; }
                        Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
                    }
                    ("push", 1) => {
                        let Expr::MethodCall(i) = peel(r) else { return None };
                        if i.method != "get_or_insert_with" || i.args.len() != 1 || i.args[0].to_token_stream().to_string().replace(' ', "") != "Vec::new" { return None; }
                        let (x, v) = (&i.receiver, &m.args[0]);
                        Some(parse_quote!(push_or_new(&mut #x, #v)))
                    }
                    _ => None,
                }
            }
            Expr::Match(m) => {
                if let Some(e) = unguard(m) { return Some(e); }
                // `match *E { P(ref x) => .. }`
                struct R(usize);
                impl VisitMut for R { fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { if p.by_ref.is_some() && p.mutability.is_none() { p.by_ref = None; self.0 += 1; } } }
                let mut n = m.clone(); let mut r = R(0);
                for a in &mut n.arms { r.visit_pat_mut(&mut a.pat); }
                if r.0 > 0 {
                    if let Expr::Unary(u) = peel(&m.expr) { if matches!(u.op, syn::UnOp::Deref(_)) { let x = m.expr.clone(); n.expr = parse_quote!(&#x); } }
                    return Some(Expr::Match(n));
                }
                None
            }
            Expr::Call(c) => {
                // the text of a message
                if c.func.to_token_stream().to_string().replace(' ', "").ends_with("__export::must_use") {
                    struct F(bool, bool);
                    impl<'a> Visit<'a> for F {
                        fn visit_macro(&mut self, m: &'a syn::Macro) { if m.path.is_ident("format_args") { self.0 = true } else { self.1 = true } }
                    }
                    let mut f = F(false, false); f.visit_expr(&c.args[0]);
                    if f.0 && !f.1 { return Some(parse_quote!(mmessage())); }
                }
                None
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(i) = peel(&r.expr) {
                    if i.index.to_token_stream().to_string().trim() == ".." { let x = &i.expr; return Some(parse_quote!(#x.mall())); }
                }
                None
            }
            Expr::ForLoop(f) => {
                if let Pat::Tuple(t) = &*f.pat {
                    if t.elems.len() != 2 { return None; }
                    let src: Expr = match peel(&f.expr) {
                        Expr::MethodCall(m) if m.method == "iter" => (*m.receiver).clone(),
                        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
                        _ => return None,
                    };
                    let k = self.fresh(); let kv = format_ident!("__kv{}", k);
                    let mut b = f.body.clone();
                    let mut pre: Vec<Stmt> = vec![];
                    for (i, p) in t.elems.iter().enumerate() {
                        if matches!(p, Pat::Wild(_)) { continue; }
                        let ix = syn::Index::from(i);
                        pre.push(parse_quote!(let #p = &#kv.#ix;));
                    }
                    pre.append(&mut b.stmts); b.stmts = pre;
                    return Some(parse_quote!(for #kv in #src.items() #b));
                }
                None
            }
            _ => None,
        }
    }
}
struct Rename(Ident, Ident);
impl VisitMut for Rename {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        if let Expr::Path(p) = &mut *c.func { if p.path.is_ident(&self.0) { let n = &self.1; p.path = parse_quote!(#n); } }
        visit_mut::visit_expr_call_mut(self, c);
    }
}
impl VisitMut for D {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let Some(n) = self.rewrite(e) { *e = n; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            // a closure that takes everything it uses becomes a function
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(id), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = peel(&init.expr) {
                        if c.inputs.len() == 2 && c.inputs.iter().all(|p| matches!(p, Pat::Type(_))) {
                            let old = id.ident.clone();
                            let name = format_ident!("{}__{}", self.prefix, old);
                            let ins = &c.inputs; let body = &c.body;
                            let block: Block = match peel(body) { Expr::Block(x) => x.block.clone(), x => parse_quote!({ #x }) };
                            let mut f: ItemFn = parse_quote!(fn #name<S: ErrorSpan>(#ins) -> Result<__Ret, DecodeError<S>> #block);
                            let save = std::mem::replace(&mut self.prefix, name.to_string());
                            self.visit_item_fn_mut(&mut f);
                            self.prefix = save;
                            self.lifted.push(f);
                            b.stmts.remove(i);
                            let mut r = Rename(old, name);
                            for s in &mut b.stmts[i..] { r.visit_stmt_mut(s); }
                            continue;
                        }
                    }
                    if let Expr::MethodCall(m) = peel(&init.expr) {
                        if m.method == "iter" && m.receiver.to_token_stream().to_string().replace(' ', "") == "node.arguments" {
                            let p = &l.pat; let r = &m.receiver;
                            b.stmts[i] = parse_quote!(let #p = ArgIter::new(&#r););
                        }
                    }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_some() && p.segments.len() > 1 {
            let up = |s: &syn::PathSegment| s.ident.to_string().chars().next().unwrap().is_uppercase();
            let k = p.segments.iter().position(up).unwrap_or(p.segments.len() - 1);
            let std = p.segments[0].ident == "std";
            p.segments = p.segments.iter().skip(k).cloned().collect();
            p.leading_colon = None;
            if std { let f = p.segments[0].ident.clone(); p.segments[0].ident = format_ident!("D{}", f); }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
}
fn main() {
    let p = std::env::args().nth(1).expect("file");
    let f = syn::parse_file(&std::fs::read_to_string(p).expect("read")).expect("parse");
    let mut out = proc_macro2::TokenStream::new();
    for it in f.items {
        let Item::Impl(mut i) = it else { continue };
        let Some((_, tr, _)) = &i.trait_ else { continue };
        if tr.segments.first().map_or(true, |s| s.ident != "knuffel") { continue; }
        let ty = i.self_ty.to_token_stream().to_string();
        let mut d = D { prefix: String::new(), lifted: vec![], n: 0 };
        for x in &mut i.items {
            if let syn::ImplItem::Fn(f) = x {
                d.prefix = format!("{}__{}", ty, f.sig.ident);
                d.visit_impl_item_fn_mut(f);
            }
        }
        if let Some((_, tr, _)) = &mut i.trait_ { d.visit_path_mut(tr); }
        i.generics = Default::default();
        i.attrs.clear();
        i.to_tokens(&mut out);
        for l in d.lifted { l.to_tokens(&mut out); }
    }
    println!("{out}");
}
