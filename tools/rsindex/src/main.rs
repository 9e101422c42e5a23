// Index of a Rust source file: for each function (free, in an impl, or in a macro_rules body given
// as a separate input) the byte ranges of its parts, its closures, loops and the functions it calls.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::{spanned::Spanned, visit::Visit};

fn rng(s: Span) -> Value { let r = s.byte_range(); json!([r.start, r.end]) }
fn toks<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

struct FnV { closures: Vec<Value>, loops: Vec<Value>, calls: Vec<String>, methods: Vec<String>, macros: Vec<Value>, structs: Vec<Value>, matches: Vec<Value>, depth: usize, unsafe_: usize }
impl<'a> Visit<'a> for FnV {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let params: Vec<Value> = c.inputs.iter().map(|p| {
            let (pat, ty) = match p { syn::Pat::Type(t) => (toks(&t.pat), Some(toks(&t.ty))), p => (toks(p), None) };
            json!({"range": rng(p.span()), "pat": pat, "ty": ty})
        }).collect();
        let ret = match &c.output { syn::ReturnType::Type(_, t) => Some(toks(t)), _ => None };
        let k = self.closures.len();
        self.closures.push(json!({"range": rng(c.span()), "params": params, "ret": ret, "body": rng(c.body.span()),
            "or1": rng(c.or1_token.span), "or2": rng(c.or2_token.span), "block": matches!(&*c.body, syn::Expr::Block(_)), "depth": self.depth, "ord": k, "mv": c.capture.is_some()}));
        self.depth += 1; syn::visit::visit_expr_closure(self, c); self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push(json!({"kind":"while","range":rng(e.span()),"body":rng(e.body.span()),"cond":rng(e.cond.span()),"depth":self.depth}));
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push(json!({"kind":"for","range":rng(e.span()),"body":rng(e.body.span()),"pat":rng(e.pat.span()),"pat_text":toks(&e.pat),"expr":rng(e.expr.span()),"depth":self.depth}));
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push(json!({"kind":"loop","range":rng(e.span()),"body":rng(e.body.span()),"depth":self.depth}));
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func { self.calls.push(toks(p).replace(' ', "")); }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        self.methods.push(e.method.to_string());
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.macros.push(json!({"name": toks(&m.path).replace(' ', ""), "range": rng(m.span()), "tokens": m.tokens.to_string()}));
        syn::visit::visit_macro(self, m);
    }
    fn visit_expr_struct(&mut self, e: &'a syn::ExprStruct) {
        let f: Vec<Value> = e.fields.iter().map(|f| json!({"name": toks(&f.member), "range": rng(f.span()), "expr": rng(f.expr.span())})).collect();
        self.structs.push(json!({"path": toks(&e.path).replace(' ', ""), "range": rng(e.span()), "fields": f}));
        syn::visit::visit_expr_struct(self, e);
    }
    fn visit_expr_match(&mut self, e: &'a syn::ExprMatch) {
        let arms: Vec<Value> = e.arms.iter().map(|a| json!({"pat": rng(a.pat.span()), "body": rng(a.body.span()), "range": rng(a.span())})).collect();
        self.matches.push(json!({"range": rng(e.span()), "expr": rng(e.expr.span()), "arms": arms}));
        syn::visit::visit_expr_match(self, e);
    }
    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) { self.unsafe_ += 1; syn::visit::visit_expr_unsafe(self, e); }
    fn visit_item(&mut self, _i: &'a syn::Item) {}
}

fn func(q: String, sig: &syn::Signature, block: &syn::Block, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, whole: Span) -> Value {
    let mut v = FnV { closures: vec![], loops: vec![], calls: vec![], methods: vec![], macros: vec![], structs: vec![], matches: vec![], depth: 0, unsafe_: 0 };
    v.visit_block(block);
    let ret = match &sig.output { syn::ReturnType::Type(_, t) => json!({"range": rng(t.span()), "text": toks(t)}), _ => Value::Null };
    let attrs: Vec<String> = attrs.iter().filter(|a| !a.path().is_ident("doc")).map(toks).collect();
    let params: Vec<Value> = sig.inputs.iter().map(|p| match p {
        syn::FnArg::Receiver(r) => json!({"pat":"self","ty":toks(r),"range":rng(r.span())}),
        syn::FnArg::Typed(t) => json!({"pat":toks(&t.pat),"ty":toks(&t.ty),"range":rng(t.span())}),
    }).collect();
    let stmts: Vec<Value> = block.stmts.iter().map(|s| rng(s.span())).collect();
    let vis_start = vis.map(|v| v.span().byte_range()).filter(|r| r.end > r.start).map(|r| r.start);
    json!({"name": q, "ident": sig.ident.to_string(), "whole": rng(whole), "sig": rng(sig.span()), "vis_start": vis_start, "generics": toks(&sig.generics), "where": sig.generics.where_clause.as_ref().map(|w| rng(w.span())), "params": params, "ret": ret, "block": rng(block.span()),
        "stmts": stmts, "closures": v.closures, "loops": v.loops, "calls": v.calls, "methods": v.methods, "macros": v.macros, "structs": v.structs, "matches": v.matches, "attrs": attrs, "unsafe": v.unsafe_})
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let t = toks(a).replace(' ', ""); t == "#[cfg(test)]" || t == "#[test]" })
}

fn items(pre: &str, its: &[syn::Item], out: &mut Vec<Value>, types: &mut Vec<Value>) {
    for it in its {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(func(format!("{pre}{}", f.sig.ident), &f.sig, &f.block, &f.attrs, Some(&f.vis), f.span())),
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                let ty = toks(&i.self_ty).replace(' ', "");
                let q = match &i.trait_ { Some((_, p, _)) => format!("{} for {}", toks(p).replace(' ', ""), ty), None => ty };
                for x in &i.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let mut v = func(format!("{pre}<{q}>::{}", f.sig.ident), &f.sig, &f.block, &f.attrs, Some(&f.vis), f.span());
                        v["impl_generics"] = json!(toks(&i.generics));
                        v["impl_range"] = rng(i.span());
                        out.push(v);
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x { if let Some(b) = &f.default {
                        out.push(func(format!("{pre}trait {}::{}", t.ident, f.sig.ident), &f.sig, b, &f.attrs, None, f.span()));
                    } }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => { if let Some((_, its)) = &m.content { items(&format!("{pre}{}::", m.ident), its, out, types); } }
            syn::Item::Enum(e) => types.push(json!({"kind":"enum","name":format!("{pre}{}",e.ident),"range":rng(e.span()),"variants":e.variants.iter().map(|v| json!({"name":v.ident.to_string(),"fields":v.fields.iter().map(|f| json!({"name":f.ident.as_ref().map(|i| i.to_string()),"ty":toks(&f.ty)})).collect::<Vec<_>>()})).collect::<Vec<_>>()})),
            syn::Item::Struct(e) => types.push(json!({"kind":"struct","name":format!("{pre}{}",e.ident),"range":rng(e.span()),"generics":toks(&e.generics),"fields":e.fields.iter().map(|f| json!({"name":f.ident.as_ref().map(|i| i.to_string()),"ty":toks(&f.ty)})).collect::<Vec<_>>()})),
            syn::Item::Macro(m) => { if let Some(id) = &m.ident {
                types.push(json!({"kind":"macro_rules","name":id.to_string(),"range":rng(m.span()),"tokens":rng(m.mac.tokens.span())}));
            } else { types.push(json!({"kind":"macro_call","name":toks(&m.mac.path),"range":rng(m.span()),"tokens":m.mac.tokens.to_string()})); } }
            _ => {}
        }
    }
}

fn main() {
    let p = std::env::args().nth(1).expect("file");
    let src = std::fs::read_to_string(&p).expect("read");
    let f = match syn::parse_file(&src) { Ok(f) => f, Err(e) => { println!("{}", json!({"error": e.to_string()})); return; } };
    let (mut out, mut types) = (vec![], vec![]);
    items("", &f.items, &mut out, &mut types);
    println!("{}", json!({"fns": out, "types": types}));
}
