//! Independent reference reader for KDL 1.0 as the property statements
//! describe it: a plain recursive descent over an array of characters.
//! It shares no code with knuffel and no parser library.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sp(pub usize, pub usize); // character indices

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Null,
    Bool(bool),
    Int(u32, String), // radix, digits with sign
    Dec(String),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub ty: Option<(String, Sp)>,
    pub lit: Lit,
    pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub name: String,
    /// the name may be written several times: any of these spans is right
    pub names: Vec<Sp>,
    pub val: Val,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub ty: Option<(String, Sp)>,
    pub name: (String, Sp),
    pub args: Vec<Val>,
    pub props: Vec<Prop>, // in the order of names
    pub children: Option<(Vec<Node>, Sp)>,
    pub sp: Sp,
}

/// Something that was opened and never closed
#[derive(Clone, Debug, PartialEq)]
pub enum Open {
    Str(usize),
    Raw(usize, usize), // start, hashes
    Comment(usize),
    Brace(usize),
}

pub fn is_newline_char(c: char) -> bool {
    matches!(c as u32, 0x0A | 0x0D | 0x0C | 0x85 | 0x2028 | 0x2029)
}

pub fn is_ws_char(c: char) -> bool {
    let u = c as u32;
    u == 0x09 || u == 0x20 || u == 0xA0 || u == 0x1680
        || (0x2000..=0x200A).contains(&u)
        || u == 0x202F || u == 0x205F || u == 0x3000 || u == 0xFEFF
}

pub fn is_ident_char(c: char) -> bool {
    (c as u32) > 0x20
        && !"\\/(){}<>;[]=,\"".contains(c)
        && !is_ws_char(c)
        && !is_newline_char(c)
}

pub struct P<'a> {
    s: &'a [char],
    /// furthest character at which something was looked at and did not fit
    pub far: usize,
    /// text whose reading the statements leave open (`/* /*/`)
    pub ambiguous: bool,
    pub open: Option<Open>,
    /// an argument that is a bare identifier
    pub bare_args: Vec<Sp>,
    pub depth: usize,
}

type R<T> = Result<T, ()>;

impl<'a> P<'a> {
    pub fn new(s: &'a [char]) -> P<'a> {
        P { s, far: 0, ambiguous: false, open: None, bare_args: Vec::new(),
            depth: 0 }
    }
    fn at(&self, i: usize) -> Option<char> { self.s.get(i).copied() }
    fn fail<T>(&mut self, i: usize) -> R<T> {
        if i > self.far { self.far = i; }
        Err(())
    }
    fn lit(&self, i: usize, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.at(i + k) == Some(c))
    }
    fn newline(&self, i: usize) -> Option<usize> {
        match self.at(i) {
            Some('\r') if self.at(i + 1) == Some('\n') => Some(i + 2),
            Some(c) if is_newline_char(c) => Some(i + 1),
            _ => None,
        }
    }
    fn line_comment(&self, i: usize) -> Option<usize> {
        if !self.lit(i, "//") { return None }
        let mut j = i + 2;
        loop {
            if j >= self.s.len() { return Some(j) }
            if let Some(k) = self.newline(j) { return Some(k) }
            j += 1;
        }
    }
    /// `/* .. */` with nested comments balanced
    fn block_comment(&mut self, i: usize) -> R<usize> {
        if !self.lit(i, "/*") { return self.fail(i) }
        let mut stack = vec![i];
        let mut j = i + 2;
        while j < self.s.len() {
            if self.lit(j, "*/") {
                stack.pop();
                j += 2;
                if stack.is_empty() { return Ok(j) }
            } else if self.lit(j, "/*") {
                if self.lit(j, "/*/") { self.ambiguous = true }
                stack.push(j);
                j += 2;
            } else {
                j += 1;
            }
        }
        if stack.len() > 1 { self.ambiguous = true }
        self.open.get_or_insert(Open::Comment(i));
        self.fail(j)
    }
    fn ws(&mut self, i: usize) -> R<usize> {
        match self.at(i) {
            Some(c) if is_ws_char(c) => Ok(i + 1),
            _ => self.block_comment(i),
        }
    }
    /// one unit of space inside a node
    fn node_space(&mut self, i: usize) -> R<usize> {
        if self.at(i) == Some('\\') {
            let mut j = i + 1;
            while let Ok(k) = self.ws(j) { j = k }
            if let Some(k) = self.line_comment(j) { return Ok(k) }
            if let Some(k) = self.newline(j) { return Ok(k) }
            return self.fail(j);
        }
        self.ws(i)
    }
    fn node_spaces(&mut self, mut i: usize) -> usize {
        while let Ok(k) = self.node_space(i) { i = k }
        i
    }
    fn bare(&mut self, i: usize) -> R<(String, usize)> {
        let mut j = i;
        while j < self.s.len() && is_ident_char(self.s[j]) { j += 1 }
        if j == i { return self.fail(i) }
        let t = &self.s[i..j];
        if t[0].is_ascii_digit() { return self.fail(i) }
        if (t[0] == '-' || t[0] == '+') && t.len() > 1
            && t[1].is_ascii_digit() { return self.fail(i) }
        let t: String = t.iter().collect();
        if t == "true" || t == "false" || t == "null" { return self.fail(i) }
        if j > self.far { self.far = j }
        Ok((t, j))
    }
    fn string(&mut self, i: usize) -> R<(String, usize)> {
        match self.at(i) {
            Some('"') => self.quoted(i),
            Some('r') => self.raw(i),
            _ => self.fail(i),
        }
    }
    fn raw(&mut self, i: usize) -> R<(String, usize)> {
        let mut j = i + 1;
        while self.at(j) == Some('#') { j += 1 }
        let n = j - i - 1;
        if self.at(j) != Some('"') { return self.fail(j) }
        j += 1;
        let start = j;
        while j < self.s.len() {
            if self.s[j] == '"'
                && (1..=n).all(|k| self.at(j + k) == Some('#'))
            {
                return Ok((self.s[start..j].iter().collect(), j + 1 + n));
            }
            j += 1;
        }
        self.open.get_or_insert(Open::Raw(i, n));
        self.fail(j)
    }
    fn quoted(&mut self, i: usize) -> R<(String, usize)> {
        let mut out = String::new();
        let mut j = i + 1;
        loop {
            match self.at(j) {
                None => {
                    self.open.get_or_insert(Open::Str(i));
                    return self.fail(j);
                }
                Some('"') => return Ok((out, j + 1)),
                Some('\\') => {
                    let e = self.at(j + 1);
                    let c = match e {
                        Some('"') => '"',
                        Some('\\') => '\\',
                        Some('/') => '/',
                        Some('b') => '\u{8}',
                        Some('f') => '\u{c}',
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        Some('u') => {
                            if self.at(j + 2) != Some('{') {
                                return self.fail(j + 2);
                            }
                            let mut k = j + 3;
                            let mut n: u32 = 0;
                            while k - (j + 3) < 6 {
                                match self.at(k).and_then(|c| c.to_digit(16)) {
                                    Some(d) => n = n * 16 + d,
                                    None => break,
                                }
                                k += 1;
                            }
                            if k == j + 3 || self.at(k) != Some('}') {
                                return self.fail(k);
                            }
                            match char::from_u32(n) {
                                Some(c) => {
                                    j = k + 1 - 2;
                                    c
                                }
                                None => return self.fail(k),
                            }
                        }
                        _ => return self.fail(j + 1),
                    };
                    out.push(c);
                    j += 2;
                }
                Some(c) => {
                    out.push(c);
                    j += 1;
                }
            }
        }
    }
    fn digits(&mut self, i: usize, radix: u32) -> R<usize> {
        let ok = |c: Option<char>| match (c, radix) {
            (Some('0'..='1'), 2) => true,
            (Some('0'..='7'), 8) => true,
            (Some('0'..='9'), 10) => true,
            (Some('0'..='9' | 'a'..='f' | 'A'..='F'), 16) => true,
            _ => false,
        };
        if !ok(self.at(i)) { return self.fail(i) }
        let mut j = i + 1;
        while ok(self.at(j)) || self.at(j) == Some('_') { j += 1 }
        if j > self.far { self.far = j }
        Ok(j)
    }
    fn number(&mut self, i: usize) -> R<(Lit, usize)> {
        let mut j = i;
        if matches!(self.at(j), Some('-' | '+')) { j += 1 }
        let sign: String = self.s[i..j].iter().collect();
        if self.at(j) == Some('0') {
            let radix = match self.at(j + 1) {
                Some('b') => 2,
                Some('o') => 8,
                Some('x') => 16,
                _ => 0,
            };
            if radix > 0 {
                if let Ok(k) = self.digits(j + 2, radix) {
                    let mut s = sign.clone();
                    s.extend(self.s[j + 2..k].iter().filter(|c| **c != '_'));
                    return Ok((Lit::Int(radix, s), k));
                }
            }
        }
        let mut k = self.digits(j, 10)?;
        let mut decimal = false;
        if self.at(k) == Some('.') {
            if let Ok(m) = self.digits(k + 1, 10) {
                k = m;
                decimal = true;
            }
        }
        if matches!(self.at(k), Some('e' | 'E')) {
            let mut m = k + 1;
            if matches!(self.at(m), Some('-' | '+')) { m += 1 }
            if let Ok(m) = self.digits(m, 10) {
                k = m;
                decimal = true;
            }
        }
        let t: String = self.s[i..k].iter().filter(|c| **c != '_').collect();
        Ok((if decimal { Lit::Dec(t) } else { Lit::Int(10, t) }, k))
    }
    fn literal(&mut self, i: usize) -> R<(Lit, usize)> {
        if let Ok((s, j)) = self.string(i) { return Ok((Lit::Str(s), j)) }
        if let Ok(r) = self.number(i) { return Ok(r) }
        for (t, l) in [("null", Lit::Null), ("true", Lit::Bool(true)),
                       ("false", Lit::Bool(false))]
        {
            if self.lit(i, t) { return Ok((l, i + t.len())) }
        }
        self.fail(i)
    }
    fn name(&mut self, i: usize) -> R<(String, usize)> {
        if let Ok(r) = self.string(i) { return Ok(r) }
        self.bare(i)
    }
    fn type_name(&mut self, i: usize) -> R<(String, usize)> {
        if self.at(i) != Some('(') { return self.fail(i) }
        let (t, j) = self.name(i + 1)?;
        if self.at(j) != Some(')') { return self.fail(j) }
        Ok((t, j + 1))
    }
    fn value(&mut self, i: usize) -> R<(Val, usize)> {
        let mut j = i;
        let mut ty = None;
        if self.at(i) == Some('(') {
            let (t, k) = self.type_name(i)?;
            ty = Some((t, Sp(i, k)));
            j = k;
        }
        let (lit, k) = self.literal(j)?;
        Ok((Val { ty, lit, sp: Sp(j, k) }, k))
    }
    /// Ok((Some(name)..)) for a property
    fn item(&mut self, i: usize) -> R<(Option<(String, Sp)>, Val, usize)> {
        if let Ok((n, j)) = self.name(i) {
            if self.at(j) == Some('=') {
                let (v, k) = self.value(j + 1)?;
                return Ok((Some((n, Sp(i, j))), v, k));
            }
            if self.at(i) != Some('"') && self.literal(i).is_err() {
                self.bare_args.push(Sp(i, j));
            }
        }
        let (v, j) = self.value(i)?;
        if self.at(j) == Some('=') { return self.fail(j) }
        Ok((None, v, j))
    }
    fn node(&mut self, i: usize) -> R<(Node, usize)> {
        let mut j = i;
        let mut ty = None;
        if self.at(j) == Some('(') {
            let (t, k) = self.type_name(j)?;
            ty = Some((t, Sp(j, k)));
            j = k;
        }
        let (name, k) = self.name(j)?;
        let name = (name, Sp(j, k));
        j = k;
        let mut args = Vec::new();
        let mut props: Vec<Prop> = Vec::new();
        loop {
            let k = self.node_spaces(j);
            if k == j { break }
            let (skip, m) = if self.lit(k, "/-") {
                (true, self.node_spaces(k + 2))
            } else {
                (false, k)
            };
            match self.item(m) {
                Err(()) => break,
                Ok((n, v, e)) => {
                    j = e;
                    if skip { continue }
                    match n {
                        None => args.push(v),
                        Some((n, sp)) => {
                            if let Some(p) = props.iter_mut()
                                .find(|p| p.name == n)
                            {
                                p.names.push(sp);
                                p.val = v;
                            } else {
                                props.push(Prop { name: n, names: vec![sp],
                                                  val: v });
                            }
                        }
                    }
                }
            }
        }
        props.sort_by(|a, b| a.name.as_bytes().cmp(b.name.as_bytes()));
        let mut children = None;
        let k = self.node_spaces(j);
        let (skip, m) = if self.lit(k, "/-") {
            (true, self.node_spaces(k + 2))
        } else {
            (false, k)
        };
        if self.at(m) == Some('{') {
            let (list, e) = self.nodes(m + 1);
            if self.at(e) != Some('}') {
                if e >= self.s.len() {
                    self.open.get_or_insert(Open::Brace(m));
                }
                return self.fail(e);
            }
            if !skip { children = Some((list, Sp(m, e + 1))) }
            j = e + 1;
        }
        j = self.node_spaces(j);
        let e = if j >= self.s.len() { j }
            else if let Some(k) = self.newline(j) { k }
            else if let Some(k) = self.line_comment(j) { k }
            else if self.at(j) == Some(';') { j + 1 }
            else { return self.fail(j) };
        Ok((Node { ty, name, args, props, children, sp: Sp(i, e) }, e))
    }
    fn line_spaces(&mut self, mut i: usize) -> usize {
        loop {
            if let Some(k) = self.newline(i) { i = k; continue }
            if let Some(k) = self.line_comment(i) { i = k; continue }
            if let Ok(k) = self.ws(i) { i = k; continue }
            return i;
        }
    }
    fn nodes(&mut self, i: usize) -> (Vec<Node>, usize) {
        let mut out = Vec::new();
        let mut i = i;
        loop {
            i = self.line_spaces(i);
            let (skip, m) = if self.lit(i, "/-") {
                (true, self.node_spaces(i + 2))
            } else {
                (false, i)
            };
            match self.node(m) {
                Ok((n, e)) => {
                    if !skip { out.push(n) }
                    i = e;
                }
                Err(()) => return (out, i),
            }
        }
    }
    pub fn document(&mut self) -> R<Vec<Node>> {
        let (n, e) = self.nodes(0);
        if e < self.s.len() {
            return self.fail(e);
        }
        Ok(n)
    }
}

pub struct Outcome {
    pub doc: Option<Vec<Node>>,
    pub far: usize,
    pub ambiguous: bool,
    pub open: Option<Open>,
    pub bare_args: Vec<Sp>,
}

pub fn read(s: &[char]) -> Outcome {
    let mut p = P::new(s);
    let doc = p.document().ok();
    Outcome { doc, far: p.far, ambiguous: p.ambiguous,
              open: p.open, bare_args: p.bare_args }
}

/// Byte offset of every character plus the end
pub fn offsets(s: &[char]) -> Vec<usize> {
    let mut v = Vec::with_capacity(s.len() + 1);
    let mut o = 0;
    for c in s {
        v.push(o);
        o += c.len_utf8();
    }
    v.push(o);
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pos { pub offset: usize, pub line: usize, pub column: usize }

/// Position before every character plus the end
pub fn positions(s: &[char]) -> Vec<Pos> {
    let mut v = Vec::with_capacity(s.len() + 1);
    let mut p = Pos { offset: 0, line: 0, column: 0 };
    for (i, c) in s.iter().enumerate() {
        v.push(p);
        p.offset += c.len_utf8();
        if *c == '\n' && i > 0 && s[i - 1] == '\r' {
            // second half of CRLF: the break was counted already
        } else if is_newline_char(*c) {
            p.line += 1;
            p.column = 0;
        } else if *c == '\t' {
            p.column += 8;
        } else {
            p.column += unicode_width::UnicodeWidthChar::width(*c)
                .unwrap_or(0);
        }
    }
    v.push(p);
    v
}
