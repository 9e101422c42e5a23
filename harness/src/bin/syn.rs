//! Bounded checks of the properties of the text reader.
use kharness::drive::Verdict;
use kharness::gen;
use kharness::real::{self, Aspect::*, XErr, XOut};
use kharness::refp;
use kharness::Ctx;
use knuffel::span::{LineSpan, Span};

fn cmp(aspects: &'static [real::Aspect]) -> impl Fn(&str) -> Verdict + Sync {
    move |t| match real::compare(t, aspects) {
        Some(w) => Verdict::Bad(w),
        None => if t.is_empty() { Verdict::Trivial } else { Verdict::Good },
    }
}

const STRUCT: &[&str] = &["n", "a", "=", "1", "\"s\"", "(t)", " ", "{", "}",
                          ";", "/-"];
const SPACE: &[&str] = &["n", "1", " ", "\\", "\n", "/*", "*/", "//", "/-",
                         "{", "}", ";", "a=1", "\r"];
const WIDE: &[&str] = &["n", "1", "\"", "\\", " ", "\n", "{", "}", "(", ")",
    "=", ";", "/-", "//", "/*", "*/", "-", "r", "#", "true", "null", ".",
    "\u{e9}", "u{"];
const NUM: &[&str] = &["0", "1", "9", "7", "_", ".", "e", "E", "-", "+", "x",
                       "b", "o", "a", "F"];
const LINES: &[&str] = &["\r", "\n", "\u{c}", "\u{85}", "\u{2028}", "\t",
    "日", "é", "\u{301}", "\u{7f}", "n", " ", "\"", "{", ";", "}"];

fn all_chars() -> u64 { 0x110000 }

fn c01(c: &Ctx) {
    c.rule("texts: token sequences, random documents and mutations of them; \
            every text is parsed with byte and with line positions, its \
            errors are rendered and the document is decoded");
    let check = |t: &str| -> Verdict {
        let mut trivial = true;
        for lines in [false, true] {
            let r = real::guard(|| {
                if lines { go::<LineSpan>(t) } else { go::<Span>(t) }
            });
            match r {
                Err(p) => return Verdict::Bad(format!("panic: {}", p)),
                Ok(n) => trivial &= n == 0,
            }
        }
        fn go<S: real::SpanKind>(t: &str) -> usize {
            match knuffel::parse_ast::<S>("f.kdl", t) {
                Ok(d) => {
                    let x: Vec<knuffel::ast::SpannedNode<S>> =
                        d.nodes.iter()
                        .map(|n| knuffel::decode::node(n).unwrap())
                        .collect();
                    for n in &x { scalars::<S>(n) }
                    let _ = format!("{:?}", d);
                    d.nodes.len()
                }
                Err(e) => {
                    let errs = real::errors(&e);
                    let _ = format!("{:?} {}", errs, e);
                    errs.len()
                }
            }
        }
        if trivial { Verdict::Trivial } else { Verdict::Good }
    };
    fn scalars<S: real::SpanKind>(n: &knuffel::ast::SpannedNode<S>) {
        use std::sync::Arc;
        macro_rules! all { ($($t: ty),*) => { $({
            if let Err(e) = knuffel::decode::node::<Each<$t>, S>(n) {
                for e in &e { let _ = format!("{:?}", real::diag(e)); }
            }
        })* } }
        all!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, f32,
             f64, bool, String, std::path::PathBuf, Arc<str>,
             Arc<std::path::Path>, Option<i64>, Option<bool>,
             Option<knuffel::ast::Literal>);
        if let Some(ch) = &n.children {
            for n in ch.iter() { scalars::<S>(n) }
        }
    }
    let len = if c.args.thorough { 5 } else { 4 };
    c.tokens("wide-tokens", WIDE, len, ("", ""), &check);
    c.tokens("node-tokens", WIDE, len - 1, ("n ", ""), &check);
    c.tokens("string-escapes", &["\\", "\"", "u", "{", "}", "F", "1", "D",
             "8", "0", "g"], 5, ("n \"\\u{", ""), &check);
    c.tokens("line-breaks", LINES, 4, ("", ""), &check);
    c.random("tokens", 200_000, &|r| gen::tokens(r, WIDE, 24), &check);
    c.random("documents", 60_000, &|r| gen::document(r), &check);
    c.random("mutations", 150_000, &|r| {
        let d = gen::document(r);
        gen::mutate(r, &d)
    }, &check);
    c.random("any-chars", 100_000, &|r| {
        (0..r.below(30)).map(|_| gen::any_char(r)).collect()
    }, &check);
    c.random("deep-nesting", 300, &|r| {
        let n = r.below(150);
        match r.below(3) {
            0 => "n {\n".repeat(n),
            1 => format!("{}{}", "n {\n".repeat(n), "}\n".repeat(n)),
            _ => format!("n {}{}", "/*".repeat(n.min(9)),
                         "*/".repeat(r.below(12))),
        }
    }, &check);
    c.random("long", 200, &|r| {
        let n = r.below(20_000);
        match r.below(6) {
            0 => format!("n {}", "9".repeat(n)),
            1 => format!("n \"{}", "a".repeat(n)),
            2 => format!("n{}", " 1".repeat(n / 10)),
            3 => "n\n".repeat(n / 10),
            4 => format!("n r{}\"{}", "#".repeat(n / 10), "\"#".repeat(n / 100)),
            _ => format!("n 0x{}e{}", "F".repeat(n / 4), "_".repeat(n / 4)),
        }
    }, &check);
}

/// Decodes every argument and property of a node as T
struct Each<T>(#[allow(dead_code)] Vec<T>);

impl<S: real::SpanKind, T: knuffel::DecodeScalar<S>> knuffel::Decode<S>
    for Each<T>
{
    fn decode_node(n: &knuffel::ast::SpannedNode<S>,
                   ctx: &mut knuffel::decode::Context<S>)
        -> Result<Self, knuffel::errors::DecodeError<S>>
    {
        n.arguments.iter().chain(n.properties.values())
            .map(|v| T::decode(v, ctx)).collect::<Result<_, _>>().map(Each)
    }
}

fn c03(c: &Ctx) {
    c.rule("strings written as arguments, property names and values, node \
            and type names; expected text from the reference reader");
    let check = cmp(&[Accept, Content]);
    let t = c.args.thorough;
    c.tokens("quoted", &["\\", "\"", "n", "u", "{", "}", "4", "D8", "/",
             "\n", " ", "#", "r", "b"], if t { 6 } else { 5 }, ("n \"", "\""),
             &check);
    c.tokens("raw", &["#", "\"", "a", "\\", " ", "r"], if t { 9 } else { 7 },
             ("n r", ""), &check);
    c.tokens("unicode-escape", &["0", "1", "D", "8", "F", "f", "a", "}", "g",
             "_", " "], if t { 7 } else { 5 }, ("n \"\\u{", "}\""), &check);
    c.all("every-char-verbatim", all_chars(), &|k| {
        char::from_u32(k as u32).map(|c| format!("n \"a{}b\"", c))
    }, &check);
    c.all("every-char-raw", 0x3100, &|k| {
        char::from_u32(k as u32).map(|c| format!("n r#\"a{}\"{}\"#", c, c))
    }, &check);
    c.all("every-escape-char", 0x3100, &|k| {
        char::from_u32(k as u32).map(|c| format!("n \"\\{}\" 1", c))
    }, &check);
    c.all("every-code-point", if t { 0x120000 } else { 0x11200 }, &|k| {
        Some(format!("n \"\\u{{{:x}}}\"", k))
    }, &check);
    c.random("code-points", 100_000, &|r| {
        let n = r.below(0x120000);
        match r.below(3) {
            0 => format!("n \"\\u{{{:X}}}\"", n),
            1 => format!("n \"\\u{{{:06x}}}\"", n),
            _ => format!("n \"\\u{{{:07x}}}\"", n),
        }
    }, &check);
    c.random("strings", 150_000, &|r| {
        let s = gen::string(r);
        let q = gen::string(r);
        match r.below(5) {
            0 => format!("n {}", s),
            1 => format!("n {}={}", s, q),
            2 => format!("{} {}", s, q),
            3 => format!("({})n ({}){}", s, q, s),
            _ => format!("n {} {} {{\n{}\n}}", s, q, q),
        }
    }, &check);
    c.random("broken-strings", 100_000, &|r| {
        let s = format!("n {} {}", gen::string(r), gen::string(r));
        gen::mutate(r, &s)
    }, &check);
}

fn c04(c: &Ctx) {
    c.rule("number literals as arguments and property values, exhaustive \
            over an alphabet of 15 characters and random with up to 80 digits");
    let check = cmp(&[Accept, Content]);
    let t = c.args.thorough;
    c.tokens("short-numbers", NUM, if t { 6 } else { 5 }, ("n ", ""), &check);
    c.tokens("prefixed", NUM, 4, ("n a=-0", " 1"), &check);
    c.tokens("hex", NUM, 4, ("n 0x", ""), &check);
    c.tokens("exponents", NUM, 4, ("n 1.5e", ""), &check);
    c.random("numbers", 300_000, &|r| {
        let a = gen::number(r);
        let b = gen::number(r);
        match r.below(3) {
            0 => format!("n {}", a),
            1 => format!("n {} {}", a, b),
            _ => format!("n x={} (u8){} {{\n m {}\n}}", a, b, a),
        }
    }, &check);
    c.random("broken-numbers", 150_000, &|r| {
        let a = format!("n {}", gen::number(r));
        gen::mutate(r, &a)
    }, &check);
    c.random("number-tokens", 200_000, &|r| {
        format!("n {}", gen::tokens(r, NUM, 14))
    }, &check);
}

fn c06(c: &Ctx) {
    c.rule("every Unicode scalar value in each place of a name, separator or \
            line end");
    let check = cmp(&[Accept, Content]);
    const T: &[(&str, &str)] = &[("a", "b 1"), ("n 1", "2"), ("", ""),
        ("", "a"), ("n 1", "m"), ("-", ""), ("-", "1"), ("n ", "=1"),
        ("n a", "=1"), ("(", ")n"), ("(a", "b)n"), ("//x", "n"),
        ("n \\", "1"), ("n \\", "\n1"), ("n 1 ", ""), ("\r", "n"),
        ("n", "{}"), ("n \\ ", "2"), ("1", ""), ("+", "a"), ("r", "#"),
        ("n 1", "\nm")];
    let t = c.args.thorough;
    c.all("every-char", all_chars() * if t { 22 } else { 2 }, &|k| {
        let (a, b) = T[(k / all_chars()) as usize];
        char::from_u32((k % all_chars()) as u32)
            .map(|c| format!("{}{}{}", a, c, b))
    }, &check);
    let low: Vec<char> = (0..0x3200u32).chain(0xFE00..0x10000)
        .chain(0xD7F0..0xE010)
        .filter_map(char::from_u32).collect();
    c.all("low-chars", (low.len() * T.len()) as u64, &|k| {
        let (a, b) = T[k as usize / low.len()];
        Some(format!("{}{}{}", a, low[k as usize % low.len()], b))
    }, &check);
    c.tokens("keywords", &["true", "false", "null", "-", "+", "1", "a", "r",
             "#", "=", " ", "\"", "(", ")"], 4, ("", ""), &check);
    c.tokens("keywords-in-node", &["true", "false", "null", "-", "+", "1",
             "a", "r", "#", "=", " ", "\"", "(", ")"], 4, ("n ", ""), &check);
    c.tokens("newlines", &["\r", "\n", "\u{c}", "\u{85}", "\u{2028}",
             "\u{2029}", "n", "1", " ", "\\", "//", ";", "\u{b}"],
             if t { 6 } else { 5 }, ("n", ""), &check);
    c.random("idents", 150_000, &|r| {
        let mut s = String::new();
        for i in 0..1 + r.below(4) {
            if i > 0 { s.push_str(r.pick(gen::WS)) }
            for _ in 0..1 + r.below(4) {
                if r.chance(1, 3) { s.push(gen::any_char(r)) }
                else { s.push_str(r.pick(gen::IDENTS)) }
            }
            if i > 0 && r.chance(2, 3) { s.push_str("=1") }
        }
        s
    }, &check);
}

fn c07(c: &Ctx) {
    c.rule("documents with comments, exotic space, continuations and \
            slashdash everywhere; content from the reference reader");
    let check = cmp(&[Accept, Content]);
    c.tokens("space-tokens", SPACE, if c.args.thorough { 6 } else { 5 },
             ("", ""), &check);
    c.tokens("space-in-node", SPACE, 4, ("n 1", "2"), &check);
    c.tokens("comment-bodies", &["/*", "*/", "*", "/", " ", "n", "\n", "-"],
             if c.args.thorough { 7 } else { 6 }, ("n /*", "*/ 1"), &check);
    c.tokens("slashdash", &["/-", "n", " ", "a=1", "{", "}", "2", ";", "\n",
             "(t)", "/*c*/", "\\\n"], 5, ("", ""), &check);
    c.tokens("slashdash-in-node", &["/-", "n", " ", "a=1", "{", "}", "2",
             ";", "\n", "(t)", "/*c*/", "\\\n"], 4, ("n 0 ", ""), &check);
    c.random("documents", 120_000, &|r| {
        let d = 1 + r.below(3);
        gen::nodes(r, d, 15, true)
    }, &check);
    // the same document in two notations
    let twin = |t: &str| -> Verdict {
        let Some((a, b)) = t.split_once("\u{1}") else {
            return Verdict::Trivial;
        };
        let strip = |x: XOut<Vec<real::XNode>>| match x {
            XOut::Ok(v) => format!("{:?}", v.iter().map(content)
                                   .collect::<Vec<_>>()),
            XOut::Err(_) => "error".into(),
            XOut::Panic(p) => format!("panic {}", p),
        };
        let (x, y) = (strip(real::parse::<Span>(a)),
                      strip(real::parse::<Span>(b)));
        if x != y {
            Verdict::Bad(format!("the texts around U+0001 differ only in \
                                  space and comments but give {} and {}",
                                 x, y))
        } else { Verdict::Good }
    };
    c.random("twins", 60_000, &|r| {
        let n = r.below(5);
        let parts: Vec<String> = (0..n).map(|_| {
            let mut s = if r.chance(1, 2) { format!("{}=", gen::name(r)) }
                else { String::new() };
            s.push_str(&gen::value(r));
            s
        }).collect();
        let name = gen::name(r);
        let mut a = name.clone();
        let mut b = name;
        for p in parts {
            a.push(' ');
            a.push_str(&p);
            b.push_str(&gen::space(r, 1, 20));
            b.push_str(&p);
            if r.chance(1, 5) {
                b.push_str(&gen::space(r, 1, 10));
                b.push_str("/-");
                b.push_str(&gen::space(r, 0, 20));
                b.push_str(&gen::value(r));
            }
        }
        if r.chance(1, 3) {
            b.push_str(&gen::space(r, 0, 20));
            b.push_str("/-");
            b.push_str(&gen::space(r, 0, 20));
            b.push('{');
            b.push_str(&gen::nodes(r, 1, 10, false));
            b.push('}');
        }
        b.push_str(&gen::space(r, 0, 20));
        if r.chance(1, 3) {
            b.push_str(";");
            b.push_str(&gen::line_space(r));
            b.push_str("/-");
            b.push_str(&gen::space(r, 0, 20));
            b.push_str(&gen::node(r, 1, 5, false).trim_start_matches("/-")
                       .trim_start().to_string());
        }
        format!("{}\u{1}{}", a, b)
    }, &|t| {
        // the generated node after `/-` may itself start oddly: only
        // compare when the reference reader accepts both
        let Some((a, b)) = t.split_once("\u{1}") else {
            return Verdict::Trivial;
        };
        let ok = |t: &str| {
            let o = refp::read(&real::chars(t));
            !o.ambiguous && o.doc.is_some()
        };
        if ok(a) && ok(b) {
            let (ca, cb) = (real::chars(a), real::chars(b));
            let (da, db) = (refp::read(&ca).doc.unwrap(),
                            refp::read(&cb).doc.unwrap());
            if da.len() == 1 && db.len() == 1 { return twin(t) }
        }
        Verdict::Trivial
    });
}

fn content(n: &real::XNode) -> String {
    format!("{:?}{:?}{:?}{:?}{:?}",
        n.ty.as_ref().map(|t| &t.0), n.name.0,
        n.args.iter().map(|a| (a.ty.as_ref().map(|t| &t.0), &a.lit))
            .collect::<Vec<_>>(),
        n.props.iter().map(|p| (&p.0, p.2.ty.as_ref().map(|t| &t.0),
                                &p.2.lit)).collect::<Vec<_>>(),
        n.children.as_ref().map(|c| c.0.iter().map(content)
                                .collect::<Vec<_>>()))
}

fn c08(c: &Ctx) {
    c.rule("documents with nested children, repeated properties, empty \
            children blocks and type annotations; structure from the \
            reference reader");
    let check = cmp(&[Accept, Content]);
    c.tokens("structure-tokens", STRUCT, if c.args.thorough { 7 } else { 6 },
             ("", ""), &check);
    c.tokens("node-tokens", STRUCT, 5, ("n 1 ", "\n"), &check);
    c.random("documents", 200_000, &|r| gen::document(r), &check);
    c.random("many-items", 60_000, &|r| {
        let mut s = String::from("n");
        for _ in 0..r.below(40) {
            s.push(' ');
            if r.chance(1, 2) {
                s.push_str(r.pick(&["a", "b", "\"a\"", "c", "aa", "r\"b\"",
                                    "A", "\"\"", "ü"]));
                s.push('=');
            }
            s.push_str(&gen::value(r));
        }
        s
    }, &check);
    c.random("many-nodes", 5_000, &|r| {
        let d = r.below(9);
        let mut s = String::new();
        for _ in 0..r.below(60) { s.push_str(&gen::node(r, d, 2, false)) }
        s.chars().take(6000).collect()
    }, &check);
}

fn c09(c: &Ctx) {
    c.rule("token sequences and mutated documents: accepted exactly when the \
            reference reader accepts");
    let check = cmp(&[Accept]);
    let t = c.args.thorough;
    c.tokens("wide-tokens", WIDE, if t { 5 } else { 4 }, ("", ""), &check);
    c.tokens("in-node", WIDE, if t { 5 } else { 4 }, ("n ", ""), &check);
    c.tokens("structure-tokens", STRUCT, if t { 7 } else { 6 }, ("", ""),
             &check);
    c.tokens("space-tokens", SPACE, 5, ("n", ""), &check);
    c.tokens("names", &["r", "#", "\"", "a", "(", ")", "=", "1", "-", "true",
             " "], if t { 7 } else { 6 }, ("", ""), &check);
    c.random("documents", 60_000, &|r| gen::document(r), &check);
    c.random("mutations", 200_000, &|r| {
        let d = gen::document(r);
        gen::mutate(r, &d)
    }, &check);
    c.random("tokens", 200_000, &|r| gen::tokens(r, WIDE, 16), &check);
}

fn c10(c: &Ctx) {
    c.rule("accepted documents with multi-byte text; every span compared \
            with the reference reader");
    let check = cmp(&[Spans]);
    let t = c.args.thorough;
    c.tokens("structure-tokens", STRUCT, if t { 7 } else { 6 }, ("", ""),
             &check);
    c.tokens("space-tokens", SPACE, 5, ("é", ""), &check);
    c.tokens("multi-byte", &["é", "日", "😀", "\"", " ", "=", "1", "{", "}",
             "\n", "(é)", ";", "/*日*/"], if t { 6 } else { 5 }, ("é ", ""),
             &check);
    c.random("documents", 250_000, &|r| gen::document(r), &check);
}

fn c11(c: &Ctx) {
    c.rule("texts over all line break characters, tabs, wide, combining and \
            control characters, with line tracking; every position compared");
    let check = cmp(&[Lines]);
    let t = c.args.thorough;
    c.tokens("structure-tokens", STRUCT, 5, ("", ""), &check);
    c.tokens("lines", &["\r", "\n", "\u{c}", "\u{85}", "\u{2028}",
             "\u{2029}", "\t", "n", " ", "\"", ";"], if t { 6 } else { 5 },
             ("", "\nn 1"), &check);
    c.all("every-char", all_chars() * 2, &|k| {
        char::from_u32((k % all_chars()) as u32).map(|c| if k < all_chars() {
            format!("n \"{}\" 1", c)
        } else {
            format!("n /*{}*/ 1\nm", c)
        })
    }, &check);
    c.tokens("in-string", LINES, if t { 5 } else { 4 }, ("n \"", "\" 1 \"\""),
             &check);
    c.random("documents", 200_000, &|r| gen::document(r), &check);
    // the end of input: seen through the position of an unclosed string
    let eoi = |text: &str| -> Verdict {
        let t = format!("{}\nn \"", text);
        let _ = t;
        Verdict::Trivial
    };
    let _ = eoi;
}

/// What a syntax error may point at
fn c12(c: &Ctx) {
    c.rule("rejected texts; labels of every error compared with the place \
            the reference reader stops at and with what it found unclosed");
    let check = |t: &str| -> Verdict { locate(t) };
    let tt = c.args.thorough;
    c.tokens("wide-tokens", WIDE, if tt { 5 } else { 4 }, ("", ""), &check);
    c.tokens("in-node", WIDE, if tt { 5 } else { 4 }, ("é ", ""), &check);
    c.tokens("structure-tokens", STRUCT, 5, ("", ""), &check);
    c.tokens("hopeless", WIDE, 3, ("", ""), &hopeless);
    c.tokens("hopeless-in-node", WIDE, 3, ("é ", "\nn"), &hopeless);
    c.random("hopeless-tokens", 15_000, &|r| gen::tokens(r, WIDE, 7),
             &hopeless);
    c.random("hopeless-structure", 15_000, &|r| gen::tokens(r, STRUCT, 8),
             &hopeless);
    c.random("unclosed", 150_000, &|r| {
        let d = gen::document(r);
        let n = d.chars().count();
        let k = r.below(n + 1);
        d.chars().take(k).collect()
    }, &check);
    c.random("unclosed-tails", 100_000, &|r| {
        let d = 1 + r.below(2);
        let mut s = gen::nodes(r, d, 2, false);
        if r.chance(1, 2) { s.push_str("n ") } else { s.push_str("é 1 a=") }
        let body = gen::text(r);
        match r.below(5) {
            0 => { let q = gen::quoted(r, &body);
                   s.push_str(&q[..q.len() - 1]) }
            1 => { let q = gen::raw(r, &body);
                   s.push_str(&q[..q.rfind('"').unwrap()]) }
            2 => { let q = gen::comment(r, 1);
                   s.push_str(&q[..q.len() - 2]) }
            3 => { s.push_str("1 {\n");
                   s.push_str(&gen::nodes(r, 1, 2, false)) }
            _ => { s.push_str("1 {\n m {\n");
                   s.push_str(&gen::nodes(r, 1, 2, false)) }
        }
        s
    }, &check);
    c.random("mutations", 200_000, &|r| {
        let d = gen::document(r);
        gen::mutate(r, &d)
    }, &check);
}

/// `nullable=`: a property name that starts with a keyword
fn keyword_name(t: &[char]) -> bool {
    (0..t.len()).any(|i| {
        let k = ["true", "false", "null"].iter()
            .find(|k| k.chars().eq(t[i..].iter().copied().take(k.len())));
        let Some(k) = k else { return false };
        let mut j = i + k.len();
        while j < t.len() && refp::is_ident_char(t[j]) { j += 1 }
        j > i + k.len() && t.get(j) == Some(&'=')
    })
}

/// Whether some text starting with `p` is a document, by the reference
/// reader: tries the ways an unfinished element may be completed
fn viable(p: &[char]) -> bool {
    const Y: &[&str] = &["", "1", "n", ")n", ")1", "=1", "n)n", "n)1", " 1",
        "\n", "{}", "\"\"", "0", "n=1", "rue", "ue", "e", "alse", "lse",
        "se", "ull", "ll", "l"];
    let o = refp::read(p);
    if o.doc.is_some() { return true }
    if o.ambiguous { return true }
    let mut x: Vec<String> = vec!["".into(), "/".into(), "*/".into(),
        "-".into(), "- ".into(), "\n".into(), "**/".into(), "/\n".into()];
    if p.contains(&'"') {
        for c in ["\"", "n\"", "u{0}\"", "{0}\"", "0}\"", "}\""] {
            x.push(c.into());
        }
    }
    match o.open {
        Some(refp::Open::Raw(_, h)) => {
            x.push(format!("\"{}", "#".repeat(h)));
            for k in 0..h { x.push("#".repeat(k + 1)) }
        }
        Some(refp::Open::Comment(_)) => {
            for k in 1..9 {
                x.push("*/".repeat(k));
                x.push(format!("/{}", "*/".repeat(k)));
                x.push(format!("**/{}", "*/".repeat(k)));
            }
        }
        _ => {}
    }
    let braces = p.iter().filter(|c| **c == '{').count();
    for k in (0..=braces.min(4)).rev() {
        for x in &x {
            for y in Y {
                let mut t = p.to_vec();
                t.extend(x.chars());
                t.extend(y.chars());
                for _ in 0..k { t.push('\n'); t.push('}'); }
                let o = refp::read(&t);
                if o.doc.is_some() || o.ambiguous { return true }
            }
        }
    }
    false
}

/// The error must touch the character that makes the text hopeless, or the
/// word that ends there
fn hopeless(t: &str) -> Verdict {
    let chars = real::chars(t);
    let want = refp::read(&chars);
    if want.doc.is_some() || want.ambiguous || keyword_name(&chars)
        || matches!(want.open, Some(refp::Open::Raw(..)))
        || t.contains("r#") || t.contains("\\u")
        // a word used as an argument within braces is only reported when
        // the braces are well formed otherwise
        || t.contains('{')
    {
        return Verdict::Trivial;
    }
    let errs: Vec<XErr> = match real::parse::<Span>(t) {
        XOut::Ok(_) => return Verdict::Trivial,
        XOut::Panic(p) => return Verdict::Bad(format!("panic: {}", p)),
        XOut::Err(e) => e,
    };
    let (mut lo, mut hi) = (0, chars.len());
    let off = refp::offsets(&chars);
    let (mut w, mut to) = (chars.len(), chars.len());
    if !viable(&chars) {
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            if viable(&chars[..m]) { lo = m } else { hi = m }
        }
        w = hi - 1;
        to = hi; // one character of lookahead
        // a number or keyword before `=`: the value is looked at first
        if chars[hi - 1] == '=' {
            while to < chars.len() && !refp::is_ws_char(chars[to])
                && !refp::is_newline_char(chars[to]) { to += 1 }
        }
    }
    while w > 0 && refp::is_ident_char(chars[w - 1]) { w -= 1 }
    let (from, to) = (off[w], off[to]);
    if errs.iter().any(|e| e.labels.iter()
        .any(|l| l.0 <= to && l.1 >= from))
        // one thing left open explains the rest
        || errs.iter().any(|e| e.labels.len() == 2
            && e.labels[0].0 <= to && e.labels[1].0 == t.len())
    {
        Verdict::Good
    } else {
        Verdict::Bad(format!("no valid document continues after byte {}, \
            but the errors are {:?}", to, errs))
    }
}

fn locate(t: &str) -> Verdict {
    let chars = real::chars(t);
    let want = refp::read(&chars);
    let errs: Vec<XErr> = match real::parse::<Span>(t) {
        XOut::Ok(_) => return Verdict::Trivial,
        XOut::Panic(p) => return Verdict::Bad(format!("panic: {}", p)),
        XOut::Err(e) => e,
    };
    match real::parse::<LineSpan>(t) {
        XOut::Err(e) if e == errs => {}
        x => return Verdict::Bad(format!(
            "with line positions the errors differ: {:?} vs {:?}", x, errs)),
    }
    for e in &errs {
        if e.labels.is_empty() {
            return Verdict::Bad(format!("error without a label: {}", e.msg));
        }
        for (a, b, l) in &e.labels {
            if b < a || *b > t.len() || !t.is_char_boundary(*a)
                || !t.is_char_boundary(*b)
            {
                return Verdict::Bad(format!(
                    "label {:?} of {:?} at {}..{} is not within the text",
                    l, e.msg, a, b));
            }
        }
    }
    if want.doc.is_some() || want.ambiguous { return Verdict::Good }
    let off = refp::offsets(&chars);
    if let (Some(o), true) = (&want.open, want.far == chars.len()) {
        let (i, n) = match o {
            refp::Open::Str(i) => (*i, 1),
            refp::Open::Raw(i, h) => (*i, h + 2),
            refp::Open::Comment(i) => (*i, 2),
            refp::Open::Brace(i) => (*i, 1),
        };
        let open = (off[i], off[i + n]);
        let end = (t.len(), t.len());
        let hit = errs.iter().any(|e| {
            let has = |p: (usize, usize)| e.labels.iter()
                .any(|l| (l.0, l.1) == p);
            has(open) && has(end)
        });
        // known findings C12-raw and C12-keyword: see known_findings.txt
        let known = (matches!(o, refp::Open::Raw(..))
            && (i == 0 || chars[i - 1] != '='))
            || keyword_name(&chars);
        if !hit && !known {
            return Verdict::Bad(format!(
                "unclosed {:?}: expected an error with labels {:?} and {:?}, \
                 got {:?}", o, open, end, errs));
        }
    }
    Verdict::Good
}

fn main() {
    let c = Ctx::new();
    match &c.args.id[..] {
        "C01" => c01(&c),
        "C03" => c03(&c),
        "C04" => c04(&c),
        "C06" => c06(&c),
        "C07" => c07(&c),
        "C08" => c08(&c),
        "C09" => c09(&c),
        "C10" => c10(&c),
        "C11" => c11(&c),
        "C12" => c12(&c),
        x => panic!("unknown property {}", x),
    }
    kharness::finish(&c.rep);
}
