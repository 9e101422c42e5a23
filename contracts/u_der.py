"""Decoders written by the derive macros.

A family of declarations is expanded by the macros of the working tree on
every run; the expansion is rewritten mechanically (tools/rsindex desugar)
and each function of it is verified against a specification generated from
the declaration as data.  The field types A, B, C, P, Q are any types with
the decoding traits."""
import os, re, subprocess, sys
import vf
from vf import Unit, Lost
import u_dec

SRC = "derived"


def f(id, role, ty, name=None, default=None, mode=None, unwrap=None,
      c=False, p=False):
    # no name a macro would choose: the expansion does not keep hygiene
    return dict(id=id and "f_" + id, role=role, ty=ty, name=name, default=default,
                mode=mode, unwrap=unwrap, c=c, p=p)


def kebab(s):
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1-\2", s)
    s = re.sub(r"([A-Z])([A-Z][a-z])", r"\1-\2", s)
    return s.replace("_", "-").strip("-").lower()


def opt(ty):
    m = re.match(r"Option<(.*)>$", ty)
    return m.group(1) if m else None


def elem(ty):
    return re.match(r"\w+<(.*)>$", ty).group(1)


def attr(x, inner=False):
    r, n = x["role"], x["name"]
    if r is None:
        return ""
    a = {"arg": "argument", "args": "arguments",
         "prop": "property" + ('(name="%s")' % n if n is not None else ""),
         "props": "properties", "child": "child",
         "multi": 'children(name="%s")' % n, "children": "children",
         "span": "span", "node_name": "node_name", "type_name": "type_name",
         "flatten": "flatten(%s)" % ", ".join(
             ["child"] * x["c"] + ["property"] * x["p"])}[r]
    if x["mode"]:
        a += ", " + x["mode"]
    if x["unwrap"]:
        a += ", unwrap(%s)" % attr(x["unwrap"], True)
    if x["default"] is not None:
        a += ", default" + ("" if x["default"] is True else "=given()")
    return a if inner else "#[knuffel(%s)] " % a


def bind(call, var, rest):
    return ("match %s { (Err(e), c) => (Err(e), c), (Ok(%s), c) => { %s } }"
            % (call, var, rest))


def dec(x, ty, optional, v):
    if x["mode"] == "str":
        return ("str_opt::<%s, S>(%s, c)" % (opt(ty), v) if optional else
                "str_dec::<%s, S>(%s, c)" % (ty, v))
    if x["mode"] == "bytes":
        return ("bytes_opt::<%s, S>(%s, c)" % (opt(ty), v) if optional else
                "bytes_dec::<%s, S>(%s, c)" % (ty, v))
    return "<%s as DecodeScalar<S>>::ds(%s, c)" % (ty, v)


def dflt(x, ty):
    return ("<%s as DDefault>::dflt()" % ty if x["default"] is True
            else "given_v::<%s>()" % ty)


class Body:
    """what one list of fields means, as specification text"""
    def __init__(self, name, fields, special=True, node=True):
        self.n, self.f = name, fields
        self.special = special
        self.aux, self.lifted = [], []
        g = lambda *r: [x for x in fields if x["role"] in r]
        self.args, self.vargs = g("arg"), g("args")
        self.props = [x for x in fields if x["role"] == "prop" or
                      x["role"] == "flatten" and x["p"]]
        self.vprops = g("props")
        self.kids = [x for x in fields if x["role"] in ("child", "multi") or
                     x["role"] == "flatten" and x["c"]]
        self.vkids = g("children")
        self.extra = [x for x in fields if x["role"] is None]
        self.sp, self.nn, self.tn = g("span"), g("node_name"), g("type_name")
        self.state()

    def nm(self, x):
        return x["name"] if x["name"] is not None else kebab(x["id"])

    def opt(self, x):
        return opt(x["ty"]) is not None and not x.get("inner")

    # ---- unwrapped children
    def child_dec(self, x, node):
        base = opt(x["ty"]) if self.opt(x) else x["ty"]
        if x["role"] != "child":
            base = elem(base)
        if x["unwrap"]:
            un = "%s_%s_un" % (self.n, x["id"])
            if un not in [l[0] for l in self.lifted]:
                b = Body(un, [dict(x["unwrap"], id=x["id"], ty=base,
                                   inner=True)], special=False)
                self.aux += b.aux
                self.aux.append(
                    "pub open spec fn %s<S: ErrorSpan>(node: SpannedNode<S>, "
                    "c: CtxV<S>) -> (RV<%s, S>, CtxV<S>) { %s }" % (
                        un, base, b.node("(Ok(v_%s), c)" % x["id"])))
                self.lifted.append((un, x["id"], base, b))
            return base, "%s(%s, c)" % (un, node)
        return base, "<%s as Decode<S>>::dn(%s, c)" % (base, node)

    # ---- the states of the two loops
    def state(self):
        n = self.n
        P, Pi, Px = [], [], []      # fields, initial values, exec values
        for x in self.props:
            i = x["id"]
            if x["role"] == "flatten":
                P.append("pub %s: %s" % (i, x["ty"]))
                Pi.append("%s: <%s as DDefault>::dflt()" % (i, x["ty"]))
                Px.append("%s: %s" % (i, i))
                continue
            P.append("pub %s: %s" % (i, x["ty"] if self.opt(x) else
                                     "Option<%s>" % x["ty"]))
            Pi.append("%s: None" % i)
            Px.append("%s: %s" % (i, i))
            if self.opt(x) and x["default"] is not None:
                P.append("pub seen_%s: bool" % i)
                Pi.append("seen_%s: false" % i)
                Px.append("seen_%s: seen_%s" % (i, i))
        for x in self.vprops:
            P.append("pub %s: Seq<%s>" % (x["id"], elem(x["ty"])))
            Pi.append("%s: Seq::empty()" % x["id"])
            Px.append("%s: %s@" % (x["id"], x["id"]))
        self.Pi = "%s_P { %s }" % (n, ", ".join(Pi))
        self.Px = "%s_P { %s }" % (n, ", ".join(Px))
        self.aux.append("pub struct %s_P { %s }" % (n, ", ".join(P)))
        # properties
        if self.vprops:
            x = self.vprops[0]
            k, v = elem(x["ty"]).strip("()").split(", ")
            ch = ("match <%s as DFromStr>::parsed(name.value@) { None => (Err("
                  "ErrV::Conversion { span: name.span }), c), Some(k) => { %s "
                  "} }" % (k, bind(dec(x, v, False, "v"), "x",
                                   "%s_props(q, i + 1, %s_P { %s: st.%s.push("
                                   "(k, x)), ..st }, c)" % (
                                       n, n, x["id"], x["id"]))))
        else:
            ch = ('(Err(ErrV::Unexpected { span: name.span, kind: "property"@'
                  ' }), c)')
        for x in reversed(self.props):
            i = x["id"]
            if x["role"] == "flatten":
                ch = ("match <%s as DecodePartial<S>>::ip(st.%s, name, v, c) {"
                      " (Err(e), c, a) => (Err(e), c), (Ok(b), c, a) => { let "
                      "st = %s_P { %s: a, ..st }; if b { %s_props(q, i + 1, "
                      "st, c) } else { %s } } }" % (
                          x["ty"], i, n, i, n, ch))
                continue
            o = self.opt(x)
            up = "%s: %s" % (i, "x" if o else "Some(x)")
            if o and x["default"] is not None:
                up += ", seen_%s: true" % i
            ch = 'if name.value@ == "%s"@ { %s } else { %s }' % (
                self.nm(x), bind(dec(x, x["ty"], o, "v"), "x",
                                 "%s_props(q, i + 1, %s_P { %s, ..st }, c)" % (
                                     n, n, up)), ch)
        self.aux.append(
            "pub open spec fn %s_props<S: ErrorSpan>(q: Seq<(SpannedName<S>, "
            "Value<S>)>, i: int, st: %s_P, c: CtxV<S>) -> (RV<%s_P, S>, "
            "CtxV<S>) decreases q.len() - i { if i < 0 || i >= q.len() { (Ok("
            "st), c) } else { let name = q[i].0; let v = q[i].1; %s } }" % (
                n, n, n, ch))
        # remaining arguments
        if self.vargs:
            x = self.vargs[0]
            e = elem(x["ty"])
            self.aux.append(
                "pub open spec fn %s_rest<S: ErrorSpan>(q: Seq<Value<S>>, i: "
                "int, acc: Seq<%s>, c: CtxV<S>) -> (RV<Seq<%s>, S>, CtxV<S>) "
                "decreases q.len() - i { if i < 0 || i >= q.len() { (Ok(acc), "
                "c) } else { let v = q[i]; %s } }" % (
                    n, e, e, bind(dec(x, e, False, "v"), "x",
                                  "%s_rest(q, i + 1, acc.push(x), c)" % n)))
        # children
        K, Ki, Kx = [], [], []
        for x in self.kids:
            i = x["id"]
            if x["role"] == "flatten":
                K.append("pub %s: %s" % (i, x["ty"]))
                Ki.append("%s: %s" % (i, "v_" + i if x["p"] else
                                      "<%s as DDefault>::dflt()" % x["ty"]))
                Kx.append("%s: %s" % (i, i))
            elif x["role"] == "multi":
                base, _ = self.child_dec(x, "node")
                K.append("pub %s: Seq<%s>" % (i, base))
                Ki.append("%s: Seq::empty()" % i)
                Kx.append("%s: %s@" % (i, i))
            elif x["ty"] == "bool" and not x["unwrap"]:
                K.append("pub %s: bool" % i)
                Ki.append("%s: false" % i)
                Kx.append("%s: %s" % (i, i))
            else:
                base, _ = self.child_dec(x, "node")
                K.append("pub %s: Option<%s>" % (i, base))
                Ki.append("%s: None" % i)
                Kx.append("%s: %s" % (i, i))
        for x in self.vkids:
            base, _ = self.child_dec(x, "node")
            K.append("pub acc_: Seq<%s>" % base)
            Ki.append("acc_: Seq::empty()")
            Kx.append("acc_: __acc@")
        self.Ki = "%s_K { %s }" % (n, ", ".join(Ki))
        self.Kx = "%s_K { %s }" % (n, ", ".join(Kx))
        self.aux.append("pub struct %s_K { %s }" % (n, ", ".join(K)))
        rec = "%s_kids(q, i + 1, %s_K { %%s, ..st }, c)" % (n, n)
        if self.vkids:
            ch = bind(self.child_dec(self.vkids[0], "q[i]")[1], "x",
                      rec % "acc_: st.acc_.push(x)")
        else:
            ch = ('%s_kids(q, i + 1, st, emit(c, ErrV::Unexpected { span: '
                  'q[i].span, kind: "node"@ }))' % n)
        dup = ('ErrV::Unexpected { span: q[i].value.node_name.span, kind: '
               '"node"@ }')
        for x in reversed(self.kids):
            i = x["id"]
            if x["role"] == "flatten":
                ch = ("match <%s as DecodePartial<S>>::ic(st.%s, q[i], c) {"
                      " (Err(e), c, a) => (Err(e), c), (Ok(b), c, a) => { let "
                      "st = %s_K { %s: a, ..st }; if b { %s_kids(q, i + 1, "
                      "st, c) } else { %s } } }" % (
                          x["ty"], i, n, i, n, ch))
                continue
            if x["role"] == "multi":
                b = bind(self.child_dec(x, "q[i]")[1], "x",
                         rec % ("%s: st.%s.push(x)" % (i, i)))
            elif x["ty"] == "bool" and not x["unwrap"]:
                b = ("let c = bare(q[i].value, c); if st.%s { %s_kids(q, i + "
                     "1, st, emit(c, %s)) } else { %s }" % (
                         i, n, dup, rec % ("%s: true" % i)))
            else:
                b = "if st.%s is Some { (Err(%s), c) } else { %s }" % (
                    i, dup, bind(self.child_dec(x, "q[i]")[1], "x",
                                 rec % ("%s: Some(x)" % i)))
            ch = 'if q[i].value.node_name.value@ == "%s"@ { %s } else { %s }' \
                % (self.nm(x), b, ch)
        self.aux.append(
            "pub open spec fn %s_kids<S: ErrorSpan>(q: Seq<SpannedNode<S>>, i:"
            " int, st: %s_K, c: CtxV<S>) -> (RV<%s_K, S>, CtxV<S>) decreases "
            "q.len() - i { if i < 0 || i >= q.len() { (Ok(st), c) } else { %s "
            "} }" % (n, n, n, ch))

    # ---- a whole node
    def children(self, nodes, final, missing):
        r = final
        for x in reversed(self.extra):
            r = "let v_%s = <%s as DDefault>::dflt(); %s" % (
                x["id"], x["ty"], r)
        for x in self.vkids:
            r = "let v_%s = <%s as MCollect<%s>>::col(st.acc_); %s" % (
                x["id"], x["ty"], elem(x["ty"]), r)
        for x in reversed(self.kids):
            i, o = x["id"], self.opt(x)
            if x["role"] == "flatten" or x["role"] == "child" and \
                    x["ty"] == "bool" and not x["unwrap"]:
                e = "st.%s" % i
            elif x["role"] == "multi":
                t = opt(x["ty"]) if o else x["ty"]
                e = "<%s as MCollect<%s>>::col(st.%s)" % (t, elem(t), i)
                if o:
                    e = "Some(%s)" % e
                if o or x["default"] is not None:
                    e = "if st.%s.len() == 0 { %s } else { %s }" % (
                        i, "None" if x["default"] is None
                        else dflt(x, x["ty"]), e)
            elif x["default"] is not None:
                e = "match st.%s { Some(x) => x, None => %s }" % (
                    i, dflt(x, x["ty"]))
            elif o:
                e = "st.%s" % i
            else:
                r = ("match st.%s { None => (Err(%s), c), Some(v_%s) => { %s } }"
                     % (i, missing, i, r))
                continue
            r = "let v_%s = %s; %s" % (i, e, r)
        return bind("%s_kids(%s, 0, %s, c)" % (self.n, nodes, self.Ki),
                    "st", r)

    def node(self, final):
        r = self.children("kids(node)", final,
                          "ErrV::Missing { span: node.span }")
        miss = "(Err(ErrV::Missing { span: node.value.node_name.span }), c)"
        for x in self.vprops:
            r = "let v_%s = <%s as MCollect<%s>>::col(st.%s); %s" % (
                x["id"], x["ty"], elem(x["ty"]), x["id"], r)
        for x in reversed(self.props):
            i, o = x["id"], self.opt(x)
            if x["role"] == "flatten" or o and x["default"] is None:
                r = "let v_%s = st.%s; %s" % (i, i, r)
            elif o:
                r = "let v_%s = if st.seen_%s { st.%s } else { %s }; %s" % (
                    i, i, i, dflt(x, x["ty"]), r)
            elif x["default"] is not None:
                r = "let v_%s = match st.%s { Some(x) => x, None => %s }; %s" % (
                    i, i, dflt(x, x["ty"]), r)
            else:
                r = "match st.%s { None => %s, Some(v_%s) => { %s } }" % (
                    i, miss, i, r)
        r = bind("%s_props(node.value.properties@, 0, %s, c)" % (
            self.n, self.Pi), "st", r)
        k = len(self.args)
        if self.vargs:
            x = self.vargs[0]
            e = elem(x["ty"])
            r = bind("%s_rest(node.value.arguments@, %d, Seq::empty(), c)" % (
                self.n, k), "xs", "let v_%s = <%s as MCollect<%s>>::col(xs); %s"
                % (x["id"], x["ty"], e, r))
        else:
            r = ("if %d < node.value.arguments@.len() { (Err(ErrV::Unexpected "
                 "{ span: node.value.arguments@[%d].literal.span, kind: "
                 "\"argument\"@ }), c) } else { %s }" % (k, k, r))
        for j, x in reversed(list(enumerate(self.args))):
            o = self.opt(x)
            a = "node.value.arguments@[%d]" % j
            if x["default"] is not None:
                none = "(Ok(%s), c)" % dflt(x, x["ty"])
            elif o:
                none = "(Ok(None), c)"
            else:
                none = miss
            r = bind("(if %d < node.value.arguments@.len() { %s } else { %s })"
                     % (j, dec(x, x["ty"], o, a), none), "v_" + x["id"], r)
        if self.special:
            if self.tn:
                x = self.tn[0]
                t = opt(x["ty"])
                if t:
                    e = ("match node.value.type_name { Some(t) => match <%s as"
                         " DFromStr>::parsed(type_text(t.value)) { Some(x) => "
                         "(Ok(Some(x)), c), None => (Err(ErrV::Conversion { "
                         "span: t.span }), c) }, None => (Ok(None), c) }" % t)
                else:
                    e = ("match node.value.type_name { Some(t) => str_err(<%s "
                         "as DFromStr>::parsed(type_text(t.value)), t.span, c)"
                         ", None => %s }" % (x["ty"], miss))
                r = bind(e, "v_" + x["id"], r)
            else:
                r = ("let c = match node.value.type_name { Some(t) => emit(c, "
                     "ErrV::Unexpected { span: t.span, kind: \"type name\"@ })"
                     ", None => c }; %s" % r)
            for x in self.nn:
                r = bind("str_err(<%s as DFromStr>::parsed(node.value."
                         "node_name.value@), node.value.node_name.span, c)" %
                         x["ty"], "v_" + x["id"], r)
            for x in self.sp:
                r = "let (v_%s, c) = <%s as DecodeSpan<S>>::sp(node.span, c); %s"\
                    % (x["id"], x["ty"], r)
        return r

    # ---- loop annotations, in textual order
    def loops(self, children_only=False):
        out = []
        n = self.n
        LI = "#[verifier::loop_isolation(false)]"
        if self.vargs and not children_only:
            out.append(dict(
                before="let ghost c_at = cv(*ctx); #[verifier::"
                "allow_complex_invariants] " + LI,
                inv="""invariant iter_args.wf(), *iter_args.v == node.value.arguments,
  %s_rest(node.value.arguments@, iter_args.i as int, __acc@, cv(*ctx)) == %s_rest(node.value.arguments@, %d, Seq::empty(), c_at),
ensures iter_args.i == node.value.arguments@.len(),
decreases node.value.arguments@.len() - iter_args.i""" % (
                    n, n, len(self.args))))
        seq = (" it.seq().len() == %s.len(), forall|i: int| 0 <= i < "
               "it.seq().len() ==> *(#[trigger] it.seq()[i]) == %s[i],")
        if not children_only:
            q = "node.value.properties@"
            out.append(dict(
                iter="it", before="let ghost c_at = cv(*ctx); " + LI,
                inv="invariant %s_props(%s, it.index() as int, %s, cv(*ctx)) "
                "== %s_props(%s, 0, %s, c_at)," % (
                    n, q, self.Px, n, q, self.Pi) + seq % (q, q)))
        q = "children@" if children_only else "kids(*node)"
        init = self.Ki
        for x in self.kids:
            if x["role"] == "flatten" and x["p"]:
                # starts from what the properties left in it
                init = init.replace("%s: v_%s" % (x["id"], x["id"]),
                                    "%s: %s_at" % (x["id"], x["id"]))
        cap = "".join("let ghost %s_at = %s; " % (x["id"], x["id"])
                      for x in self.kids if x["role"] == "flatten" and x["p"])
        out.append(dict(
            iter="it", before="let ghost c_at = cv(*ctx); " + cap + LI,
            inv="invariant %s_kids(%s, it.index() as int, %s, cv(*ctx)) == "
            "%s_kids(%s, 0, %s, c_at)," % (n, q, self.Kx, n, q, init)
            + seq % (q, q)))
        return out


FAMILY = []


def struct(name, *fields, kind="named", props="C16", default=False):
    FAMILY.append(dict(t="struct", name=name, fields=list(fields), kind=kind,
                       props=props.split(","), default=default))


def enum(name, *variants, props="C19"):
    FAMILY.append(dict(t="enum", name=name, variants=variants,
                       props=props.split(",")))


def newtype(name, inner, props="C19"):
    FAMILY.append(dict(t="new", name=name, inner=inner,
                       props=props.split(",")))


def scalar(name, *variants, props="C19"):
    FAMILY.append(dict(t="scalar", name=name, variants=variants,
                       props=props.split(",")))


def arg(**k):
    return f("", "arg", None, **k)


from der_family import declare
declare(globals())


def declarations():
    out = ["#![allow(warnings)]"] + [
        "pub struct %s;" % t for t in "ABCPQ"] + [
        "pub struct Col<T>(T);", "fn given<T>() -> T { loop {} }"]
    for d in FAMILY:
        if d["t"] == "scalar":
            out.append("#[derive(knuffel::DecodeScalar)] pub enum %s { %s }" %
                       (d["name"], ", ".join(d["variants"])))
            continue
        out.append("#[derive(knuffel::Decode)]")
        if d["t"] == "new":
            out.append("pub struct %s(%s);" % (d["name"], d["inner"]))
        elif d["t"] == "enum":
            vs = []
            for v in d["variants"]:
                if len(v) == 1:
                    vs.append(v[0])
                elif v[1] is None:
                    vs.append("#[knuffel(skip)] %s(A)" % v[0])
                elif isinstance(v[1], str):
                    vs.append("%s(%s)" % v)
                else:
                    vs.append("%s(%s)" % (v[0], ", ".join(
                        attr(x) + x["ty"] for x in v[1])))
            out.append("pub enum %s { %s }" % (d["name"], ", ".join(vs)))
        elif d["kind"] == "named":
            out.append("pub struct %s { %s }" % (d["name"], ", ".join(
                attr(x) + x["id"] + ": " + x["ty"] for x in d["fields"])))
        elif d["kind"] == "tuple":
            out.append("pub struct %s(%s);" % (d["name"], ", ".join(
                attr(x) + x["ty"] for x in d["fields"])))
        else:
            out.append("pub struct %s;" % d["name"])
    return "\n".join(out) + "\n"


def expand():
    """the decoders of the declarations, as the working tree's macros write
    them"""
    key = (vf.REPO, SRC)
    if key in vf.Source.cache:
        return
    d = os.path.join(vf.BUILD, "decls")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for n, t in (("Cargo.toml", '[package]\nname = "decls"\nversion = "0.1.0"'
                  '\nedition = "2021"\n[workspace]\n[dependencies]\nknuffel = '
                  '{ path = "%s" }\n' % vf.REPO),
                 ("src/lib.rs", declarations())):
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    r = subprocess.run(
        ["cargo", "rustc", "--offline", "--profile", "check", "--lib", "--",
         "-Zunpretty=expanded"], cwd=d, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=dict(
            os.environ, RUSTC_BOOTSTRAP="1",
            CARGO_TARGET_DIR=os.path.join(vf.BUILD, "expand")))
    if r.returncode or not r.stdout:
        raise Lost("the declarations do not expand: " +
                   r.stderr.decode(errors="replace")[-600:])
    p = os.path.join(d, "expanded.%d.rs" % os.getpid())
    open(p, "wb").write(r.stdout)
    r = subprocess.run([os.path.join(vf.BUILD, "rsindex/release/desugar"), p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(p)
    if r.returncode:
        raise Lost("desugar: " + r.stderr.decode(errors="replace")[-300:])
    t = subprocess.run(["rustfmt", "--edition", "2021", "--emit", "stdout"],
                       input=r.stdout, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    text = (t.stdout if t.returncode == 0 and t.stdout else r.stdout).decode()
    vf.Source.cache[key] = vf.Source(SRC, text)


def unit():
    expand()
    d = u_dec.unit()
    u = Unit("der", ["p_dec.rs", "p_der.rs"], subs=[("DDefault::default()", "ddefault()")] + d.subs + [
        (".parse()", ".mparse()"), (".try_into()", ".mtry_into()"),
        (re.compile(r"(\w+)\s*\.into_iter\(\)\s*\.collect\(\)"),
         r"from_vec(\1)"),
    ], rlimit=60)
    u.dropped = d.dropped + [
        "decoders: the expansion of the derive macros for the declarations of "
        "contracts/der_family.py (any field types); Option/Result combinators "
        "with closures, flat_map/map with collect, match guards, `ref` "
        "patterns and pairs of a map are written out as match, if and for; "
        "closures that capture nothing become functions; the text of messages "
        "is dropped",
    ]
    # the crate's own functions that derived code calls
    keep = 0
    for i, it in enumerate(d.items):
        if isinstance(it, vf.Fn) and it.name == "<Context<S>>::into_errors":
            keep = i + 1
    for i, it in enumerate(d.items[:keep]):
        u.items.append(it)
    for i, it in enumerate(d.items):
        if isinstance(it, vf.Fn) and it.name == "check_flag_node":
            u.items += [d.items[i - 1], it]
    # several modules: they are verified in parallel
    n = 6
    for k in range(0, len(FAMILY), n):
        u.text("pub mod der%d { use vstd::prelude::*; use super::*; %s"
               "verus!{ broadcast use {str_ext, emitted_v, flag_is_bare, "
               "vec_of_view, bare_all}; }" % (
                   k // n, "".join("use super::der%d::*; " % j
                                   for j in range(k // n))))
        for x in FAMILY[k:k + n]:
            globals()["put_" + x["t"]](u, x)
        u.text("}")
    return u


def lifted(u, b, owner, props):
    """the functions behind unwrap(..)"""
    for un, i, base, inner in b.lifted:
        name = "%s__unwrap_%s" % (owner, i)
        lifted(u, inner, name, props)
        u.fn(SRC, name, "ensures (rv(ret), cv(*final(ctx))) == %s(*node, "
             "cv(*old(ctx)))" % un, sigsub=[("__Ret", base)],
             loops=inner.loops(), props=props + ["C23"])


def put_struct(u, d):
    n, fl = d["name"], d["fields"]
    tup = d["kind"] == "tuple"
    fl = [dict(x, id="field%d" % i, attr_id=x["id"]) for i, x in
          enumerate(fl)] if tup else fl
    if tup:
        u.text("verus!{ pub struct %s(%s); }" % (
            n, ", ".join("pub " + x["ty"] for x in fl)))
        made = "%s(%s)" % (n, ", ".join("v_" + x["id"] for x in fl))
    elif d["kind"] == "unit":
        u.text("verus!{ pub struct %s; }" % n)
        made = n
    else:
        u.text("verus!{ pub struct %s { %s } }" % (
            n, ", ".join("pub %s: %s" % (x["id"], x["ty"]) for x in fl)))
        made = "%s { %s }" % (n, ", ".join("%s: v_%s" % (
            x["id"], x["id"]) for x in fl))
    if d["default"]:
        u.text("verus!{ impl DDefault for %s { uninterp spec fn dflt() -> Self"
               "; #[verifier::external_body] fn default() -> Self { "
               "unimplemented!() } } }" % n)
    b = Body(n, fl)
    ok = "(Ok(%s), c)" % made
    nodetext = b.node(ok)
    u.text("verus!{\n%s\n}" % "\n".join(b.aux))
    G = "<S: ErrorSpan>"
    special = b.sp or b.nn or b.tn
    noargs = not b.args and not b.vargs
    # which other traits the macro implements
    if noargs and not special and not b.vprops and not b.vkids and \
            d["kind"] != "unit" and \
            all(opt(x["ty"]) or x["role"] == "flatten" for x in b.props) and \
            all(opt(x["ty"]) or x["role"] == "flatten" or
                (x["ty"] == "bool" and not x["unwrap"]) for x in b.kids):
        partial(u, d, b, n)
    if noargs and not special and not b.props and not b.vprops and \
            d["kind"] != "unit":
        t = b.children("nodes", ok, "ErrV::MissingNode")
        lifted(u, b, n + "__decode_children", d["props"])
        u.open("impl%s DecodeChildren<S> for %s {" % (G, n),
               "open spec fn dc(nodes: Seq<SpannedNode<S>>, c: CtxV<S>) -> "
               "(RV<Self, S>, CtxV<S>) { %s }" % t)
        u.fn(SRC, "<DecodeChildren<S> for %s>::decode_children" % n,
             loops=b.loops(True), props=d["props"] + ["C23"])
        u.close()
    lifted(u, b, n + "__decode_node", d["props"])
    u.open("impl%s Decode<S> for %s {" % (G, n),
           "open spec fn dn(node: SpannedNode<S>, c: CtxV<S>) -> (RV<Self, S>"
           ", CtxV<S>) { %s }" % nodetext)
    u.fn(SRC, "<Decode<S> for %s>::decode_node" % n, loops=b.loops(),
         props=d["props"] + ["C13", "C23"])
    u.close()


def partial(u, d, b, n):
    """the structure as a flattened one: takes what it declares"""
    acc = (lambda x: x["id"][5:]) if d["kind"] == "tuple" else \
        (lambda x: x["id"])
    up = "Self { %s: %s, ..a }"
    ic = ip = "(Ok(false), c, a)"
    for x in reversed(b.kids):
        i = acc(x)
        if x["role"] == "flatten":
            ic = ("match <%s as DecodePartial<S>>::ic(a.%s, node, c) { (Err(e)"
                  ", c, x) => (Err(e), c, %s), (Ok(b), c, x) => { let a = %s; "
                  "if b { (Ok(true), c, a) } else { %s } } }" % (
                      x["ty"], i, up % (i, "x"), up % (i, "x"), ic))
            continue
        dup = ('ErrV::Unexpected { span: node.value.node_name.span, kind: '
               '"node"@ }')
        if x["ty"] == "bool":
            t = ("let c = bare(node.value, c); if a.%s { (Ok(true), emit(c, "
                 "%s), a) } else { (Ok(true), c, %s) }" % (
                     i, dup, up % (i, "true")))
        else:
            call = b.child_dec(x, "node")[1]
            if x["role"] == "multi":
                v = ("Some(vec_of((match a.%s { Some(v) => v@, None => "
                     "Seq::empty() }).push(x)))" % i)
                t = ""
            else:
                v = "Some(x)"
                t = "let c = if a.%s is Some { emit(c, %s) } else { c }; " % (
                    i, dup)
            t += ("match %s { (Err(e), c) => (Err(e), c, a), (Ok(x), c) => (Ok"
                  "(true), c, %s) }" % (call, up % (i, v)))
        ic = 'if node.value.node_name.value@ == "%s"@ { %s } else { %s }' % (
            b.nm(x), t, ic)
    for x in reversed(b.props):
        i = acc(x)
        if x["role"] == "flatten":
            ip = ("match <%s as DecodePartial<S>>::ip(a.%s, name, v, c) { ("
                  "Err(e), c, x) => (Err(e), c, %s), (Ok(b), c, x) => { let a "
                  "= %s; if b { (Ok(true), c, a) } else { %s } } }" % (
                      x["ty"], i, up % (i, "x"), up % (i, "x"), ip))
            continue
        ip = ('if name.value@ == "%s"@ { match %s { (Err(e), c) => (Err(e), c,'
              ' a), (Ok(x), c) => (Ok(true), c, %s) } } else { %s }' % (
                  b.nm(x), dec(x, x["ty"], True, "v"), up % (i, "x"), ip))
    lifted(u, b, n + "__insert_child", d["props"])
    u.open("impl<S: ErrorSpan> DecodePartial<S> for %s {" % n, """
open spec fn ic(a: Self, node: SpannedNode<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self) { %s }
open spec fn ip(a: Self, name: SpannedName<S>, v: Value<S>, c: CtxV<S>) -> (RV<bool, S>, CtxV<S>, Self) { %s }
""" % (ic, ip))
    ps = sorted(set(d["props"] + ["C18"]))
    u.fn(SRC, "<DecodePartial<S> for %s>::insert_child" % n, props=ps)
    u.fn(SRC, "<DecodePartial<S> for %s>::insert_property" % n, props=ps)
    u.close()


def put_new(u, d):
    n, o = d["name"], opt(d["inner"])
    u.text("verus!{ pub struct %s(pub %s); }" % (n, d["inner"]))
    t = nested("%s(%%s)" % n, d["inner"])
    u.open("impl<S: ErrorSpan> Decode<S> for %s {" % n,
           "open spec fn dn(node: SpannedNode<S>, c: CtxV<S>) -> (RV<Self, S>"
           ", CtxV<S>) { %s }" % t)
    u.fn(SRC, "<Decode<S> for %s>::decode_node" % n, props=d["props"])
    u.close()


def nested(ctor, ty):
    o = opt(ty)
    t = bind("<%s as Decode<S>>::dn(node, c)" % (o or ty), "x",
             "(Ok(%s), c)" % (ctor % ("Some(x)" if o else "x")))
    if o:
        t = ("if node.value.arguments@.len() > 0 || node.value.properties@."
             "len() > 0 || node.value.children is Some { %s } else { (Ok(%s), "
             "c) }" % (t, ctor % "None"))
    return t


def put_enum(u, d):
    n = d["name"]
    loops, decl = [], []
    ch = "(Err(ErrV::Conversion { span: node.value.node_name.span }), c)"
    arms = []
    bodies = []
    for k, v in enumerate(d["variants"]):
        i = v[0]
        ctor = "%s::%s" % (n, i)
        if len(v) == 1:
            decl.append(i)
            arms.append((i, "(Ok(%s), bare(node.value, c))" % ctor))
            seq = (" it.seq().len() == %s.len(), forall|i: int| 0 <= i < "
                   "it.seq().len() ==> *(#[trigger] it.seq()[i]) == %s[i],")
            LI = "#[verifier::loop_isolation(false)]"
            cu = "c_u%d" % k
            off = ["0", "node.value.arguments@.len()",
                   "node.value.arguments@.len() + node.value.properties@"
                   ".len()"]
            qs = ["node.value.arguments@", "node.value.properties@",
                  "children.value@"]
            for j in range(3):
                loops.append(dict(
                    iter="it", before=("let ghost %s = cv(*ctx); proof { "
                                       "bare_none(node.value, %s); } " % (
                                           cu, cu) if j == 0 else "") + LI,
                    inv="invariant cv(*ctx) == bare_upto(node.value, %s + "
                    "it.index(), %s)," % (off[j], cu) + seq % (qs[j], qs[j])
                    + (" node.value.children == Some(*children)," if j == 2
                       else ""),
                    pre="proof { bare_step(node.value, %s + it.index(), %s); }"
                    % (off[j], cu)))
        elif v[1] is None:
            decl.append("%s(A)" % i)
        elif isinstance(v[1], str):
            decl.append("%s(%s)" % v)
            arms.append((i, nested(ctor + "(%s)", v[1])))
        else:
            fl = [dict(x, id="field%d" % j) for j, x in enumerate(v[1])]
            decl.append("%s(%s)" % (i, ", ".join(x["ty"] for x in fl)))
            b = Body("%s_%s" % (n, i), fl, special=False)
            arms.append((i, b.node("(Ok(%s(%s)), c)" % (
                ctor, ", ".join("v_" + x["id"] for x in fl)))))
            loops += b.loops()
            bodies.append(b)
    u.text("verus!{ pub enum %s { %s } }" % (n, ", ".join(decl)))
    for b in bodies:
        u.text("verus!{\n%s\n}" % "\n".join(b.aux))
    for i, t in reversed(arms):
        ch = 'if node.value.node_name.value@ == "%s"@ { %s } else { %s }' % (
            kebab(i), t, ch)
    for b in bodies:
        lifted(u, b, n + "__decode_node", d["props"])
    u.open("impl<S: ErrorSpan> Decode<S> for %s {" % n,
           "open spec fn dn(node: SpannedNode<S>, c: CtxV<S>) -> (RV<Self, S>"
           ", CtxV<S>) { %s }" % ch)
    u.fn(SRC, "<Decode<S> for %s>::decode_node" % n, loops=loops,
         props=d["props"] + ["C23"])
    u.close()


def put_scalar(u, d):
    n = d["name"]
    u.text("verus!{ pub enum %s { %s } }" % (n, ", ".join(d["variants"])))
    ch = "Err(ErrV::Conversion { span: val.span })"
    for i in reversed(d["variants"]):
        ch = 'if s@ == "%s"@ { Ok(%s::%s) } else { %s }' % (
            kebab(i), n, i, ch)
    u.open("impl %s {" % n)
    SIG = [("fn raw_decode", "fn raw_decode<S: ErrorSpan>"),
           ("fn type_check", "fn type_check<S: ErrorSpan>")]
    u.fn(SRC, "<DecodeScalar<S> for %s>::raw_decode" % n, """
ensures cv(*final(ctx)) == cv(*old(ctx)), rv(ret) == (match val.value { Literal::String(s) => %s,
   l => Err(ErrV::Kind { span: val.span, expected: Kind::String, found: kind_of(l) }) })""" % ch,
         sigsub=SIG, props=d["props"])
    u.fn(SRC, "<DecodeScalar<S> for %s>::type_check" % n, """
ensures cv(*final(ctx)) == (match *type_name { Some(t) => emit(cv(*old(ctx)), ErrV::TypeName { span: t.span, found: Some(t.value), rust: "%s"@ }), None => cv(*old(ctx)) })""" % n,
         sigsub=SIG, props=["C13", "C19"])
    u.close()
