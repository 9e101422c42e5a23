//! Text generators: random documents in varied notation, token sequences
//! and mutations.
use crate::rng::Rng;

pub const WS: &[&str] = &[
    " ", "  ", "\t", "\u{a0}", "\u{1680}", "\u{2000}", "\u{2005}", "\u{200a}",
    "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}",
];
pub const NL: &[&str] = &[
    "\n", "\r\n", "\r", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}",
];
pub const COMMENT_BODY: &[&str] = &[
    "", " ", "x", "* ", "**", " / ", "//", "\n", "\"", "/-", "{", "}", "ü",
    " * ", "\r\n", "\\", "日",
];
pub const IDENTS: &[&str] = &[
    "a", "b", "node", "x1", "r", "rr", "r#", "n-1", "-", "+", "--", "-a",
    "+b", "--1", "+-2", "nullable", "trueish", "falsey", "nulls", "a!b", "!",
    "ü", "日本", "😀", "a.b", ".", "a-b_c", "_", "_1", "e", "E", "e5", "x",
    "b0", "o", "'", "a'b", "#", "##", "|", "~", "@", "$", "%", "^", "&", "*",
    "a*", "?", ":", "`", "\u{7f}", "\u{80}", "\u{200b}", "\u{200d}",
    "\u{2060}", "\u{ad}", "true1", "False", "NULL", "u8", "i64", "base64",
    "\u{10ffff}", "\u{300}", "e\u{301}", "\u{1f600}\u{200d}", "-.5", "+.",
    "inf", "nan", "usize",
];

pub fn comment(r: &mut Rng, depth: usize) -> String {
    let mut s = String::from("/*");
    for _ in 0..r.below(4) {
        let mut part = if depth > 0 && r.chance(1, 4) {
            comment(r, depth - 1)
        } else {
            r.pick(COMMENT_BODY).to_string()
        };
        // keep `/*` and `*/` from forming across the pieces
        if part.contains("/*") && !part.starts_with("/*") { part = " ".into() }
        if s.ends_with('/') && !s.ends_with("*/") && part.starts_with('*') {
            s.push(' ');
        }
        if s.ends_with('*') && part.starts_with('/') { s.push(' ') }
        s.push_str(&part);
    }
    if s.ends_with('/') && s.len() > 2 { s.push(' ') }
    s.push_str("*/");
    s
}

pub fn esc_line(r: &mut Rng) -> String {
    let mut s = String::from("\\");
    for _ in 0..r.below(3) {
        if r.chance(1, 4) { s.push_str(&comment(r, 1)) }
        else { s.push_str(r.pick(WS)) }
    }
    if r.chance(1, 3) { s.push_str(&line_comment(r)) }
    s.push_str(r.pick(NL));
    s
}

pub fn line_comment(r: &mut Rng) -> String {
    let mut s = String::from("//");
    for _ in 0..r.below(4) {
        s.push_str(r.pick(&[" ", "x", "/*", "*/", "\"", "{", "}", ";", "ü",
                            "\\", "/", "\t", "日"]));
    }
    s
}

/// space inside a node, at least `min` units
pub fn space(r: &mut Rng, min: usize, fancy: usize) -> String {
    let mut s = String::new();
    let n = min + if r.chance(1, 4) { r.below(3) } else { 0 };
    for _ in 0..n {
        if r.chance(fancy, 20) {
            match r.below(3) {
                0 => s.push_str(&comment(r, 2)),
                1 => s.push_str(&esc_line(r)),
                _ => s.push_str(r.pick(WS)),
            }
        } else {
            s.push(' ');
        }
    }
    s
}

pub fn line_space(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(3) {
        match r.below(5) {
            0 => s.push_str(&comment(r, 2)),
            1 => {
                s.push_str(&line_comment(r));
                s.push_str(r.pick(NL));
            }
            2 => s.push_str(r.pick(WS)),
            _ => s.push_str(r.pick(NL)),
        }
    }
    s
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => char::from_u32(r.below(0x20) as u32).unwrap(),
        1..=3 => char::from_u32(0x20 + r.below(0x60) as u32).unwrap(),
        4 => char::from_u32(0x80 + r.below(0x200) as u32).unwrap(),
        5 => char::from_u32(0x1FF0 + r.below(0x80) as u32).unwrap(),
        6 => char::from_u32(0x3000 + r.below(0x100) as u32).unwrap(),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                return c;
            }
        },
    }
}

pub fn quoted(r: &mut Rng, value: &str) -> String {
    let mut s = String::from("\"");
    for c in value.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '/' if r.chance(1, 2) => s.push_str("\\/"),
            '\u{8}' if r.chance(1, 2) => s.push_str("\\b"),
            '\u{c}' if r.chance(1, 2) => s.push_str("\\f"),
            '\n' if r.chance(1, 2) => s.push_str("\\n"),
            '\r' if r.chance(1, 2) => s.push_str("\\r"),
            '\t' if r.chance(1, 2) => s.push_str("\\t"),
            c if r.chance(1, 10) => {
                let w = r.below(7);
                let h = format!("{:01$x}", c as u32, w.max(1));
                let h = if r.chance(1, 2) { h.to_uppercase() } else { h };
                s.push_str(&format!("\\u{{{}}}", h));
            }
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn raw(r: &mut Rng, value: &str) -> String {
    // enough hashes not to end early
    let mut need = 0;
    let cs: Vec<char> = value.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if *c == '"' {
            let n = cs[i + 1..].iter().take_while(|c| **c == '#').count();
            need = need.max(n + 1);
        }
    }
    let n = need + r.below(3);
    let h = "#".repeat(n);
    format!("r{}\"{}\"{}", h, value, h)
}

pub fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 20) { 10 + r.below(40) } else { r.below(7) };
    for _ in 0..n {
        match r.below(6) {
            0 => s.push_str(r.pick(&["\"", "\\", "/", "\n", "\r\n", "\t", "#",
                "\"#", "\"##", "{", "}", "/*", "*/", "//", "/-", "\u{8}",
                "\u{c}", "\r", "\u{2028}", "u{41}", "\\u", "r\"", "r#\"",
                "\u{0}", "é", "日", "😀"])),
            1 => s.push(any_char(r)),
            _ => s.push(*r.pick(&['a', 'b', 'n', 't', 'u', '1', ' ', 'Z'])),
        }
    }
    s
}

pub fn string(r: &mut Rng) -> String {
    let v = text(r);
    if r.chance(1, 3) { raw(r, &v) } else { quoted(r, &v) }
}

pub fn digits(r: &mut Rng, radix: u32) -> String {
    let set: &[char] = match radix {
        2 => &['0', '1'],
        8 => &['0', '1', '2', '3', '4', '5', '6', '7'],
        10 => &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'],
        _ => &['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b',
               'c', 'd', 'e', 'f', 'A', 'B', 'C', 'D', 'E', 'F'],
    };
    let n = match r.below(10) {
        0 => 15 + r.below(60),
        1 | 2 => 3 + r.below(12),
        _ => 1 + r.below(3),
    };
    let mut s = String::new();
    for i in 0..n {
        s.push(*r.pick(set));
        if i + 1 < n || r.chance(1, 6) {
            while r.chance(1, 6) { s.push('_') }
        }
    }
    s
}

pub fn number(r: &mut Rng) -> String {
    let mut s = String::new();
    s.push_str(r.pick(&["", "", "", "-", "+"]));
    match r.below(8) {
        0 => { s.push_str("0b"); s.push_str(&digits(r, 2)) }
        1 => { s.push_str("0o"); s.push_str(&digits(r, 8)) }
        2 => { s.push_str("0x"); s.push_str(&digits(r, 16)) }
        3 | 4 => {
            s.push_str(&digits(r, 10));
            let both = r.below(3);
            if both != 1 { s.push('.'); s.push_str(&digits(r, 10)) }
            if both != 0 {
                s.push_str(r.pick(&["e", "E"]));
                s.push_str(r.pick(&["", "-", "+"]));
                s.push_str(&digits(r, 10));
            }
        }
        _ => s.push_str(&digits(r, 10)),
    }
    s
}

pub fn literal(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "null".into(),
        1 => "true".into(),
        2 => "false".into(),
        3..=6 => number(r),
        _ => string(r),
    }
}

pub fn name(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => r.pick(&["a", "b", "c", "node", "x"]).to_string(),
        5..=7 => r.pick(IDENTS).to_string(),
        _ => string(r),
    }
}

pub fn type_name(r: &mut Rng) -> String {
    let n = if r.chance(1, 2) {
        r.pick(&["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64",
                 "usize", "isize", "f32", "f64", "base64", "u128", "date"])
            .to_string()
    } else {
        name(r)
    };
    format!("({})", n)
}

pub fn value(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 5) { s.push_str(&type_name(r)) }
    s.push_str(&literal(r));
    s
}

pub fn node(r: &mut Rng, depth: usize, fancy: usize, last: bool) -> String {
    let mut s = String::new();
    if r.chance(1, 10) {
        s.push_str("/-");
        s.push_str(&space(r, 0, fancy));
    }
    if r.chance(1, 6) { s.push_str(&type_name(r)) }
    s.push_str(&name(r));
    let items = if r.chance(1, 30) { r.below(12) } else { r.below(4) };
    for _ in 0..items {
        s.push_str(&space(r, 1, fancy));
        if r.chance(1, 10) {
            s.push_str("/-");
            s.push_str(&space(r, 0, fancy));
        }
        if r.chance(1, 2) {
            s.push_str(&name(r));
            s.push('=');
        }
        s.push_str(&value(r));
    }
    if depth > 0 && r.chance(2, 5) {
        let min = if r.chance(1, 3) { 0 } else { 1 };
        s.push_str(&space(r, min, fancy));
        if r.chance(1, 10) {
            s.push_str("/-");
            s.push_str(&space(r, 0, fancy));
        }
        s.push('{');
        s.push_str(&nodes(r, depth - 1, fancy, false));
        s.push('}');
    }
    s.push_str(&space(r, 0, fancy));
    match r.below(8) {
        0 | 1 => s.push(';'),
        2 => {
            s.push_str(&line_comment(r));
            if !(last && r.chance(1, 3)) { s.push_str(r.pick(NL)) }
        }
        3 if last => {}
        _ => s.push_str(if fancy > 3 { r.pick(NL) } else { "\n" }),
    }
    s
}

pub fn nodes(r: &mut Rng, depth: usize, fancy: usize, root: bool) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 30) { r.below(8) } else { r.below(4) };
    if fancy > 0 || !root { s.push_str(&line_space(r)) }
    for i in 0..n {
        s.push_str(&node(r, depth, fancy, root && i + 1 == n));
        if fancy > 0 && !(root && i + 1 == n) { s.push_str(&line_space(r)) }
    }
    s
}

pub fn document(r: &mut Rng) -> String {
    let depth = if r.chance(1, 20) { 6 } else { r.below(4) };
    let fancy = *r.pick(&[0, 2, 6, 15]);
    nodes(r, depth, fancy, true)
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let pool: &[&str] = &["\"", "\\", "/", "{", "}", "(", ")", "=", ";",
            "\n", " ", "-", "+", "*", "/*", "*/", "/-", "//", "r", "#", "0",
            "1", "9", "_", ".", "e", "x", "a", "true", "null", "\r", ",", "<",
            ">", "[", "]", "\u{feff}", "\u{2028}", "\t", "!", "\u{85}",
            "\u{0}", "é", "u{", "\\u{"];
        let p = r.below(c.len() + 1);
        match r.below(5) {
            0 if !c.is_empty() => { c.remove(p.min(c.len() - 1)); }
            1 if !c.is_empty() => {
                let p = p.min(c.len() - 1);
                let t: Vec<char> = r.pick(pool).chars().collect();
                c.splice(p..p + 1, t);
            }
            2 if c.len() > 1 => {
                let p = p.min(c.len() - 2);
                c.swap(p, p + 1);
            }
            3 if !c.is_empty() && r.chance(1, 3) => { c.truncate(p) }
            _ => {
                let t: Vec<char> = r.pick(pool).chars().collect();
                c.splice(p..p, t);
            }
        }
    }
    // unclosed nested comments take exponential time (known finding of C01):
    // keep the nesting of generated texts small
    let t: String = c.into_iter().collect();
    if t.matches("/*").count() > 7 { t.replace("/*", "/ ") } else { t }
}

pub fn tokens(r: &mut Rng, pool: &[&str], max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n { s.push_str(r.pick(pool)) }
    if s.matches("/*").count() > 7 { s.replace("/*", "/ ") } else { s }
}

/// The k-th sequence of at most `len` tokens, or None past the end
pub fn nth(pool: &[&str], len: usize, mut k: u64) -> Option<String> {
    let b = pool.len() as u64;
    for n in 0..=len as u32 {
        let c = b.pow(n);
        if k < c {
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(pool[(k % b) as usize]);
                k /= b;
            }
            return Some(s);
        }
        k -= c;
    }
    None
}

pub fn count(pool: &[&str], len: usize) -> u64 {
    (0..=len as u32).map(|n| (pool.len() as u64).pow(n)).sum()
}
