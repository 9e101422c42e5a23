#!/usr/bin/env python3
"""Writes harness/src/bin/der/types.rs: declarations that use the derive, and
for each the same declaration as data for the reference interpreter."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
regs = []


def kebab(s):
    # the names below have no digits next to letters of another case
    s = s[2:] if s.startswith("r#") else s
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1-\2", s)
    s = re.sub(r"([A-Z])([A-Z][a-z])", r"\1-\2", s)
    return s.replace("_", "-").strip("-").lower()


def f(id, role, ty, name=None, default=None, mode=None, unwrap=None,
      c=False, p=False):
    return dict(id=id, role=role, ty=ty, name=name, default=default,
                mode=mode, unwrap=unwrap, c=c, p=p)


def attr(x, inner=False):
    r, n = x["role"], x["name"]
    if r is None:
        return ""
    a = {"arg": "argument", "args": "arguments",
         "prop": "property" + ('(name="%s")' % n if n is not None else ""),
         "props": "properties", "child": "child",
         "multi": 'children(name="%s")' % n, "children": "children",
         "span": "span", "node_name": "node_name", "type_name": "type_name",
         "flatten": "flatten(%s)" % ", ".join(
             ["child"] * x["c"] + ["property"] * x["p"])}[r]
    if x["mode"]:
        a += ", " + x["mode"]
    if x["unwrap"]:
        a += ", unwrap(%s)" % attr(x["unwrap"], True)
    if x["default"] is not None:
        a += ", default" + ("" if x["default"] is True
                            else "=" + x["default"])
    return a if inner else "#[knuffel(%s)] " % a


def opt(ty):
    m = re.match(r"Option<(.*)>$", ty)
    return m.group(1) if m else None


def elem(ty):
    return re.match(r"\w+<(.*)>$", ty).group(1)


SC = {"i8", "u8", "i16", "u16", "i32", "i64", "u64", "f64", "bool", "String"}
ENUMS = set()


def dec(x, ty, optional):
    """the decoder of one value of type ty"""
    if x["mode"] == "str":
        t = opt(ty) if optional else ty
        return "Dec::Str(|s| s.parse::<%s>().map(|x| x.txt()).ok())" % t
    if x["mode"] == "bytes":
        t = opt(ty) if optional else ty
        return ("Dec::Bytes(|b| <%s as TryFrom<Vec<u8>>>::try_from(b)"
                ".map(|x| x.txt()).ok())" % t)
    if ty in ENUMS:
        return "Dec::ScalarEnum(%s::NAMES, false)" % ty
    if opt(ty) in ENUMS:
        return "Dec::ScalarEnum(%s::NAMES, true)" % opt(ty)
    return "Dec::Scalar(<%s as Sc>::expect)" % ty


def field(x, ty, is_opt, tuple_, inner=False):
    r = x["role"]
    name = x["name"] if x["name"] is not None else kebab(x["id"])
    dflt = "None"
    # type of the whole field, to show the default
    if x["default"] is not None and r != "flatten":
        e = ("Default::default()" if x["default"] is True else x["default"])
        dflt = "Some({ let d: %s = %s; d.txt() })" % (ty, e)
    d = "Dec::Nothing"
    role = "Role::Extra"
    if r == "arg":
        role = "Role::Arg"
        d = dec(x, ty, is_opt)
    elif r == "prop":
        role = 'Role::Prop("%s")' % name
        d = dec(x, ty, is_opt)
    elif r == "args":
        role = "Role::Args(%s)" % ("true" if "Set" in ty else "false")
        d = dec(x, elem(ty), False)
    elif r == "props":
        k, v = elem(ty).strip("()").split(", ")
        role = "Role::Props(|s| s.parse::<%s>().map(|x| x.txt()).ok(), %s)" % (
            k, "true" if "Map" in ty else "false")
        d = dec(x, v, False)
    elif r in ("child", "multi", "children"):
        if r == "child" and ty == "bool" and not x["unwrap"]:
            role = 'Role::Flag("%s")' % name
        else:
            role = {"child": 'Role::Child("%s")' % name,
                    "multi": 'Role::Multi("%s")' % name,
                    "children": "Role::Children"}[r]
            base = opt(ty) if is_opt else ty
            if r != "child":
                base = elem(base)
            if x["unwrap"]:
                d = "Dec::Unwrap(Box::new(%s))" % field(
                    dict(x["unwrap"], id=x["id"]), base, False, tuple_, True)
            else:
                d = "Dec::Node(%s)" % node(base)
    elif r == "flatten":
        role = "Role::Flatten { c: %s, p: %s }" % (
            str(x["c"]).lower(), str(x["p"]).lower())
        d = "Dec::Node(%s)" % node(ty)
    elif r == "span":
        role = "Role::Span"
    elif r == "node_name":
        role = "Role::NodeName"
        d = "Dec::Str(|s| s.parse::<%s>().map(|x| x.txt()).ok())" % ty
    elif r == "type_name":
        role = "Role::TypeName"
        t = opt(ty) if is_opt else ty
        d = "Dec::Str(|s| s.parse::<%s>().map(|x| x.txt()).ok())" % t
    else:
        dflt = "Some(<%s>::default().txt())" % ty
    idn = x["id"].replace("r#", "")
    return ('Fld { id: "%s", indexed: %s, role: %s, opt: %s, dflt: %s, '
            'dec: %s }' % (idn, "true" if tuple_ else "false",
                           role, str(is_opt).lower(), dflt, d))


def node(ty):
    """function giving the schema of a node type"""
    m = re.match(r"(Box|Arc|Rc)<(.*)>$", ty)
    if m:
        return node(m.group(2))
    return "%s::schema" % ty


def reg(name, props, root, sp=False):
    regs.append((name, props, root, sp))


def struct(name, *fields, kind="named", props="C16", root=False,
           default=False, sp=False):
    """kind: named, tuple, unit"""
    der = "knuffel::Decode" + (", Default" if default else "")
    out.append("#[derive(%s)]" % der)
    if sp:
        out.append("#[knuffel(span_type=knuffel::span::Span)]")
    if kind == "named":
        out.append("pub struct %s {\n%s}" % (name, "".join(
            "    %s%s: %s,\n" % (attr(x), x["id"], x["ty"]) for x in fields)))
    elif kind == "tuple":
        out.append("pub struct %s(%s);" % (name, ", ".join(
            attr(x) + x["ty"] for x in fields)))
    else:
        out.append("pub struct %s;" % name)
    body(name, fields, kind)
    reg(name, props, root, sp)


def shows(fields, kind, acc):
    return "".join(
        's.push_str("%s="); s.push_str(&%s.txt()); s.push(\' \');' % (
            x["id"].replace("r#", ""), acc(i, x))
        for i, x in enumerate(fields))


def body(name, fields, kind):
    acc = (lambda i, x: "self.%d" % i) if kind == "tuple" else \
        (lambda i, x: "self." + x["id"])
    out.append(
        'impl Show for %s { fn txt(&self) -> String { let mut s = '
        'String::from("%s{ "); %s s.push(\'}\'); s } }' % (
            name, name, shows(fields, kind, acc)))
    fl = ", ".join(field(x, x["ty"], opt(x["ty"]) is not None,
                         kind == "tuple") for x in fields)
    out.append('impl %s { pub fn schema() -> Schema { Schema::Struct '
               '{ name: "%s", fields: vec![%s] } } }' % (name, name, fl))


def newtype(name, inner, props="C19"):
    out.append("#[derive(knuffel::Decode)]\npub struct %s(%s);" % (
        name, inner))
    o = opt(inner)
    out.append('impl Show for %s { fn txt(&self) -> String { '
               'format!("%s({})", self.0.txt()) } }' % (name, name))
    out.append('impl %s { pub fn schema() -> Schema { Schema::New { '
               'name: "%s", opt: %s, of: %s } } }' % (
                   name, name, str(bool(o)).lower(), node(o or inner)))
    reg(name, props, False)


def enum(name, *variants, props="C19"):
    """variants: (Ident,) unit; (Ident, "Ty") nested; (Ident, [fields])
    tuple; (Ident, None) skipped"""
    t, sh, sc = "", "", []
    for v in variants:
        i = v[0]
        if len(v) == 1:
            t += "    %s,\n" % i
            sh += '%s::%s => "%s".into(), ' % (name, i, i)
            sc.append('("%s", "%s", VKind::Unit)' % (kebab(i), i))
        elif v[1] is None:
            t += "    #[knuffel(skip)] #[allow(dead_code)] %s(String),\n" % i
            sh += '%s::%s(_) => "SKIPPED".into(), ' % (name, i)
        elif isinstance(v[1], str):
            t += "    %s(%s),\n" % (i, v[1])
            sh += '%s::%s(x) => format!("%s({})", x.txt()), ' % (name, i, i)
            o = opt(v[1])
            sc.append('("%s", "%s", VKind::Nested { opt: %s, of: %s })' % (
                kebab(i), i, str(bool(o)).lower(), node(o or v[1])))
        else:
            t += "    %s(%s),\n" % (i, ", ".join(
                attr(x) + x["ty"] for x in v[1]))
            names = ["x%d" % k for k in range(len(v[1]))]
            sh += ('%s::%s(%s) => { let mut s = String::from("%s{ "); %s '
                   's.push(\'}\'); s } ' % (
                       name, i, ", ".join(names), i,
                       shows(v[1], "tuple", lambda k, x: "x%d" % k)))
            fl = ", ".join(field(x, x["ty"], opt(x["ty"]) is not None, True)
                           for x in v[1])
            sc.append('("%s", "%s", VKind::Tuple(vec![%s]))' % (
                kebab(i), i, fl))
    out.append("#[derive(knuffel::Decode)]\npub enum %s {\n%s}" % (name, t))
    out.append("impl Show for %s { fn txt(&self) -> String { match self "
               "{ %s } } }" % (name, sh))
    out.append("impl %s { pub fn schema() -> Schema { Schema::Enum "
               "{ variants: vec![%s] } } }" % (name, ", ".join(sc)))
    reg(name, props, False)


def scalar_enum(name, *variants):
    ENUMS.add(name)
    out.append("#[derive(knuffel::DecodeScalar)]\npub enum %s { %s }" % (
        name, ", ".join(variants)))
    out.append("impl Show for %s { fn txt(&self) -> String { match self "
               "{ %s } } }" % (name, " ".join(
                   '%s::%s => "%s".into(),' % (name, v, v.replace("r#", ""))
                   for v in variants)))
    out.append("impl %s { pub const NAMES: &'static [(&'static str, "
               "&'static str)] = &[%s]; }" % (name, ", ".join(
                   '("%s", "%s")' % (kebab(v), v.replace("r#", ""))
                   for v in variants)))


def arg(**k):
    return f("", "arg", None, **k)


# ---- payloads ---------------------------------------------------------------
scalar_enum("Two", "First", "SecondOne")
scalar_enum("Four", "Alpha", "BetaGamma", "r#Type", "HTTPServer")
scalar_enum("One", "Only")
struct("P0", f("v", "arg", "i32"))
struct("P1", f("v", "arg", "Option<String>"),
       f("q", "prop", "Option<u8>"))
struct("P2", f("v", "args", "Vec<i64>"), f("inner", "child", "Option<P0>"),
       props="C17")
struct("Unit0", kind="unit", props="C19")
struct("Empty0", props="C19")

# ---- arguments --------------------------------------------------------------
struct("A1", f("first", "arg", "i32"), f("second", "arg", "Option<String>"))
struct("A2", f("a", "arg", "String"), f("b", "arg", "u8"),
       f("c", "arg", "Option<bool>"), f("rest", "args", "Vec<i16>"))
struct("A3", f("a", "arg", "i64", default=True),
       f("b", "arg", "i64", default="42"),
       f("c", "arg", "Option<i64>", default="Some(7)"))
struct("A4", f("a", "arg", "i32", mode="str"),
       f("b", "arg", "Option<i32>", mode="str"),
       f("c", "arg", "Vec<u8>", mode="bytes"),
       f("d", "arg", "Option<Even>", mode="bytes"),
       props="C16,C15")
struct("A5", f("a", "arg", "Even", mode="bytes"),
       f("rest", "args", "Vec<Even>", mode="bytes"),
       props="C16,C15")
struct("A6", f("rest", "args", "Vec<u16>", mode="str"))
struct("A7", f("rest", "args", "BTreeSet<String>"))
struct("A8", f("t", "arg", "Two"), f("u", "arg", "Option<Four>"),
       f("rest", "args", "Vec<Four>"), props="C16,C19")
struct("A9", f("x", "arg", "f64"), f("y", "arg", "bool"),
       f("z", "arg", "Option<Option<i8>>"), kind="tuple")
struct("A10", f("a", "arg", "i32"), f("b", "arg", "Option<String>"),
       f("c", "args", "Vec<String>"), kind="tuple")
struct("A11", f("a", "arg", "u64", default="7", mode="str"),
       f("b", "arg", "Option<u64>", default="Some(9)", mode="str"),
       f("c", "arg", "Vec<u8>", default=True, mode="bytes"),
       props="C16,C15")
struct("A12", f("rest", "args", "Vec<Option<u8>>"))

# ---- properties -------------------------------------------------------------
struct("B1", f("name", "prop", "String"), f("count", "prop", "Option<u8>"),
       f("long_name", "prop", "bool", default=True))
struct("B2", f("a", "prop", "i32", name="b"), f("b", "prop", "i32", name="a"),
       f("r#type", "prop", "Option<String>"))
struct("B3", f("x", "prop", "i64", default="-5"),
       f("y", "prop", "Option<i64>", default="Some(6)"),
       f("z", "prop", "Option<i64>", default=True))
struct("B4", f("known", "prop", "Option<i32>"),
       f("rest", "props", "BTreeMap<String, i32>"))
struct("B5", f("rest", "props", "BTreeMap<i32, String>"))
struct("B6", f("s", "prop", "i32", mode="str"),
       f("t", "prop", "Option<i32>", mode="str"),
       f("u", "prop", "Even", mode="bytes"),
       f("v", "prop", "Option<Vec<u8>>", mode="bytes"),
       props="C16,C15")
struct("B7", f("a", "arg", "i32"), f("p", "prop", "i32", name="the prop"),
       f("q", "prop", "Option<i32>", name=""), kind="tuple")
struct("B8", f("e", "prop", "Two"), f("g", "prop", "Option<Four>"),
       f("rest", "props", "Vec<(String, Two)>"), props="C16,C19")
struct("B9", f("s", "prop", "Option<i32>", mode="str", default="Some(3)"),
       f("t", "prop", "i32", mode="str", default="4"),
       f("rest", "props", "BTreeMap<String, i32>", mode="str"),
       props="C16,C15")
struct("B10", f("a", "arg", "Option<i32>"), f("rest", "args", "Vec<i32>"),
       f("p", "prop", "Option<i32>"),
       f("others", "props", "BTreeMap<String, Option<String>>"))
struct("B11", f("all", "props", "Vec<(String, bool)>"), kind="tuple")
struct("B12", f("rest", "props", "BTreeMap<String, Vec<u8>>", mode="bytes"),
       props="C16,C15")

# ---- children ---------------------------------------------------------------
struct("C1", f("one", "child", "P0"), f("two", "child", "Option<P1>"),
       f("flag", "child", "bool"), props="C17", root=True)
struct("C2", f("items", "multi", "Vec<P0>", name="item"),
       f("rest", "children", "Vec<P1>"), props="C17", root=True)
struct("C3", f("all", "children", "Vec<E1>"), props="C17", root=True)
struct("C4", f("a", "multi", "Option<Vec<P0>>", name="a"),
       f("b", "multi", "Vec<P0>", name="b-b", default="vec![]"),
       f("c", "child", "P0", default="P0 { v: 77 }"), props="C17", root=True)
struct("C5", f("x", "child", "i32", unwrap=arg()),
       f("y", "child", "Option<String>", unwrap=arg()),
       f("z", "child", "Vec<u8>", unwrap=f("", "args", None)),
       f("w", "child", "Option<i64>", unwrap=f("", "prop", None, name="k")),
       props="C17", root=True)
struct("C6", f("x", "multi", "Vec<i32>", name="v", unwrap=arg()),
       f("m", "child", "BTreeMap<String, i32>", unwrap=f("", "props", None)),
       f("n", "child", "Option<Vec<P0>>",
         unwrap=f("", "children", None)), props="C17", root=True)
struct("C7", f("s", "child", "i32", unwrap=arg(mode="str")),
       f("d", "child", "i32", unwrap=arg(default="12")),
       f("l", "child", "Vec<P0>", unwrap=f("", "multi", None, name="q")),
       f("others", "children", "Vec<i64>", unwrap=arg()),
       props="C17", root=True)
struct("C8", f("n", "child", "Vec<i32>",
               unwrap=f("", "multi", None, name="x", unwrap=arg())),
       f("flag", "child", "bool", unwrap=arg()),
       f("maybe", "child", "Option<bool>", unwrap=arg()),
       props="C17", root=True)
struct("C9", f("arg", "arg", "i32"), f("prop", "prop", "Option<i32>"),
       f("sub", "child", "Option<C1>"), f("subs", "multi", "Vec<C2>",
                                          name="sub-list"),
       f("on", "child", "bool"), f("off", "child", "bool"), props="C17")
struct("C10", f("a", "child", "Box<P0>"), f("r#match", "child", "Option<P0>"),
       f("u", "child", "Unit0"), props="C17", root=True)
struct("C11", f("d", "child", "i32", unwrap=arg(), default="5"),
       f("e", "child", "P0", default="P0 { v: 1 }"),
       f("m", "multi", "Vec<i32>", name="m", unwrap=arg(),
         default="vec![3]"),
       f("o", "multi", "Option<Vec<i32>>", name="o", unwrap=arg(),
         default="Some(vec![4])"), props="C17", root=True)
struct("C12", f("fst", "multi", "Vec<P1>", name="p"),
       f("snd", "child", "Option<P2>"), f("f", "child", "bool"),
       f("rest", "children", "Vec<P2>"), props="C17", root=True)
struct("C13", f("x", "multi", "Option<Vec<i32>>", name="x", unwrap=arg()),
       props="C17,C18", root=True, default=True)
struct("C14", f("lists", "children", "Vec<Vec<i32>>",
                unwrap=f("", "args", None)), props="C17", root=True)

# ---- flattened --------------------------------------------------------------
struct("F0", f("a", "prop", "Option<i32>"), f("b", "prop", "Option<String>"),
       props="C18", default=True)
struct("F1", f("c", "child", "Option<P0>"), f("d", "child", "bool"),
       f("u", "child", "Option<i32>", unwrap=arg()), props="C18",
       default=True, root=True)
struct("F2", f("x", "prop", "Option<i32>"), f("y", "child", "Option<P1>"),
       f("z", "child", "bool"), props="C18", default=True)
struct("F3", f("x", "prop", "Option<i32>"),
       f("inner", "flatten", "F0", p=True), f("z", "prop", "Option<u8>"),
       props="C18", default=True)
struct("F4", f("k", "child", "bool"), f("inner", "flatten", "F1", c=True),
       f("l", "child", "Option<P0>"), props="C18", default=True, root=True)
struct("F5", f("both", "flatten", "F2", c=True, p=True),
       f("w", "prop", "Option<i32>", mode="str"), props="C18", default=True)
struct("G0", f("own", "prop", "i32"), f("f", "flatten", "F0", p=True),
       f("last", "prop", "Option<i32>"), props="C18")
struct("G1", f("f", "flatten", "F1", c=True), f("own", "child", "P0"),
       props="C18", root=True)
struct("G2", f("arg", "arg", "i32"), f("f", "flatten", "F2", c=True, p=True),
       f("own", "child", "Option<P0>"), f("p", "prop", "i32"), props="C18")
struct("G3", f("f", "flatten", "F3", p=True),
       f("rest", "props", "BTreeMap<String, i32>"), props="C18")
struct("G4", f("f", "flatten", "F4", c=True), f("rest", "children", "Vec<P1>"),
       props="C18", root=True)
struct("G5", f("a", "prop", "i32"), f("f", "flatten", "F0", p=True),
       f("g", "flatten", "F3", p=True), props="C18")
struct("G6", f("d", "child", "bool"), f("f", "flatten", "F4", c=True),
       f("g", "flatten", "F1", c=True), f("c", "child", "Option<P1>"),
       props="C18", root=True)
struct("G7", f("f", "flatten", "F5", c=True, p=True), props="C18",
       default=True)
struct("G8", f("f", "flatten", "Box<F7>", c=True, p=True),
       f("n", "arg", "i32"), props="C18")
struct("F7", f("g", "flatten", "G7", c=True, p=True),
       f("q", "prop", "Option<i8>"), props="C18", default=True)
struct("G9", f("a", "prop", "i32", name="p"),
       f("f", "flatten", "F0", p=True), kind="tuple", props="C18")
struct("F8", f("l", "multi", "Option<Vec<P0>>", name="x"),
       f("e", "prop", "Option<Two>"), f("s", "prop", "Option<i32>",
                                        mode="str"),
       f("b", "prop", "Option<Vec<u8>>", mode="bytes"),
       props="C18", default=True)
struct("G10", f("f", "flatten", "F8", c=True, p=True),
       f("k", "multi", "Vec<P0>", name="y"), props="C18")
struct("G11", f("f", "flatten", "C13", c=True),
       f("k", "child", "bool"), props="C18", root=True)

# ---- specials ---------------------------------------------------------------
struct("S1", f("n", "node_name", "String"), f("t", "type_name",
                                              "Option<String>"),
       f("a", "arg", "Option<i32>"), props="C16,C13")
struct("S2", f("t", "type_name", "i32"), f("n", "node_name", "String"),
       f("a", "prop", "Option<i32>"), f("x", None, "u64"), props="C16,C13")
struct("S3", f("n", "node_name", "i32"), f("c", "child", "Option<S1>"),
       props="C16,C17")
struct("S4", f("x", None, "String"), f("a", "arg", "i32"),
       f("y", None, "Option<i32>"), f("b", "arg", "i32"),
       kind="tuple", props="C16")

struct("S5", f("s", "span", "Span"), f("a", "arg", "i32"),
       f("c", "multi", "Vec<S6>", name="c"), f("n", "node_name", "String"),
       sp=True, props="C16,C20")
struct("S6", f("s", "span", "Span"), f("v", "arg", "Spanned<i32, Span>"),
       f("o", "arg", "Option<Spanned<String, Span>>"),
       f("p", "prop", "Option<Spanned<i32, Span>>"),
       sp=True, props="C16,C20")

# ---- enums ------------------------------------------------------------------
enum("E1", ("Alpha",), ("BetaGamma", "P0"), ("OptNode", "Option<P1>"),
     ("Tup", [f("a", "arg", "i32"), f("b", "prop", "Option<u8>", name="b")]))
enum("E2", ("HTTPServer", "P0"), ("X",), ("Hidden", None))
enum("E3", ("Nest", "C1"), ("Type", "Unit0"),
     ("A", "E2"), ("List", [f("r", "args", "Vec<i64>"),
                            f("p", "props", "BTreeMap<String, String>")]))
enum("E4", ("V", [f("x", "arg", "i32"), f("c", "children", "Vec<P0>")]),
     ("W", [f("x", "multi", "Vec<i32>", name="k", unwrap=arg()),
            f("y", None, "i32")]),
     ("U", "Option<E4Box>"), props="C19,C17")
struct("E4Box", f("v", "children", "Vec<E4>"), props="C19")
enum("E5", ("Only",))
newtype("N1", "P0")
newtype("N2", "Option<P1>")
newtype("N3", "E1")
newtype("N4", "Option<C1>")
struct("M1", f("e", "children", "Vec<E3>"), props="C19", root=True)
struct("M2", f("a", "child", "Option<N2>"), f("b", "child", "N1"),
       f("u", "child", "Option<Empty0>"), f("rest", "children", "Vec<E2>"),
       props="C19", root=True)

t = "// written by tools/gen_der.py\nuse super::*;\n\n" + "\n".join(out) + "\n\n"
t += "pub fn all() -> Vec<Type> {\n    vec![\n"
for n, p, root, sp in regs:
    t += ("        Type { name: \"%s\", props: \"%s\", schema: %s::schema, "
          "a: run::<Span, %s>, b: %s, root: %s },\n" % (
              n, p, n, n, "None" if sp else "Some(run::<LineSpan, %s>)" % n,
              "Some((run_root::<Span, %s>, run_root::<LineSpan, %s>))" % (
                  n, n) if root else "None"))
t += "    ]\n}\n"
open(V + "/harness/src/bin/der/types.rs", "w").write(t)
