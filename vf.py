"""Composes Verus units from /repo's current source and runs the verifier.

Each unit (contracts/u_*.py) lists functions of /repo by name.  Their text is
taken from the working tree on every run; the unit only adds contracts, loop
invariants, closure contracts and proof hints, and applies the mechanical
rewrites listed in `Unit.subs` (recorded in the evidence).
"""
import json, os, re, subprocess, sys, time, hashlib, importlib.util

sys.modules.setdefault("vf", sys.modules[__name__])
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
RSINDEX = os.path.join(BUILD, "rsindex/release/rsindex")
BASELINE = os.path.join(VERIF, "contracts/baseline.json")


class Lost(Exception):
    """The text of /repo has no such function, or not the expected shape"""


def build_rsindex():
    r = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--quiet"],
        cwd=os.path.join(VERIF, "tools/rsindex"),
        env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "rsindex")),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise SystemExit("cannot build rsindex: " + r.stdout.decode())


class Source:
    """A source file (or the text of one macro expansion)"""
    cache = {}

    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(path, "rb") as f:
                self.raw = f.read()
            src = path
        else:
            self.raw = text.encode()
            os.makedirs(os.path.join(BUILD, "virt"), exist_ok=True)
            h = hashlib.sha1(self.raw).hexdigest()[:16]
            src = os.path.join(BUILD, "virt", "%s.%d.rs" % (h, os.getpid()))
            with open(src, "wb") as f:
                f.write(self.raw)
        r = subprocess.run([RSINDEX, src], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if text is not None:
            os.unlink(src)
        if r.returncode:
            raise Lost("cannot parse %s: %s" % (path, r.stderr.decode()[:300]))
        d = json.loads(r.stdout)
        self.fns, self.types = d["fns"], d["types"]

    def slice(self, r):
        return self.raw[r[0]:r[1]].decode()

    def fn(self, name):
        c = [f for f in self.fns if f["name"] == name]
        if not c:
            # the impl may have been reorganised: accept a unique function
            # whose self type and identifier agree
            raise Lost("no function %s in %s" % (name, self.path))
        if len(c) > 1:
            # cfg variants: prefer the one not negated
            c2 = [f for f in c if not any("not" in a for a in f["attrs"])]
            if len(c2) == 1:
                return c2[0]
            raise Lost("%d functions %s in %s" % (len(c), name, self.path))
        return c[0]

    def type(self, name):
        c = [t for t in self.types if t["name"].split("::")[-1] == name]
        if len(c) != 1:
            raise Lost("%d types %s in %s" % (len(c), name, self.path))
        return self.slice(c[0]["range"])


def source(rel, repo=None):
    """`span.rs`, or `convert.rs!impl_integer(i8, I8)` for one expansion of a
    macro_rules macro with a single arm and ident parameters"""
    key = (repo or REPO, rel)
    if key in Source.cache:
        return Source.cache[key]
    base, _, mac = rel.partition("!")
    root = repo or REPO
    path = os.path.join(root, base if "/" in base else "src/" + base)
    if not mac:
        s = Source(path)
    else:
        text = open(path).read()
        name, args = re.match(r"(\w+)\((.*)\)$", mac).groups()
        args = [a.strip() for a in args.split(",")]
        m = re.search(r"macro_rules!\s*%s\s*\{" % name, text)
        if not m:
            raise Lost("no macro %s in %s" % (name, base))
        body = balanced(text, m.end() - 1)
        inner = body[1:-1].strip()
        if not inner.startswith("("):
            raise Lost("macro %s: unexpected shape" % name)
        pat = balanced(inner, 0)
        rest = inner[len(pat):].strip()
        if not rest.startswith("=>"):
            raise Lost("macro %s: unexpected shape" % name)
        rest = rest[2:].strip()
        exp = balanced(rest, 0)
        if rest[len(exp):].strip().rstrip(";").strip():
            raise Lost("macro %s has several arms" % name)
        params = re.findall(r"\$(\w+)\s*:\s*(\w+)", pat)
        if len(params) != len(args) or "$(" in pat:
            raise Lost("macro %s: unexpected parameters" % name)
        if not re.search(r"\b%s!\s*[({]\s*%s\s*[)}]" % (
                name, r"\s*,\s*".join(map(re.escape, args))), text):
            raise Lost("no invocation %s!(%s)" % (name, ", ".join(args)))
        out = exp[1:-1]
        for (p, _), a in zip(params, args):
            out = re.sub(r"\$%s\b" % p, a, out)
        if "$" in out:
            raise Lost("macro %s: unexpected body" % name)
        s = Source(rel, out)
    Source.cache[key] = s
    return s


def balanced(text, i):
    """text[i] opens a bracket: the text through its match (strings and
    character literals are skipped)"""
    pairs = {"(": ")", "{": "}", "[": "]"}
    stack, j = [], i
    while j < len(text):
        c = text[j]
        if c == '"':
            j += 1
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
        elif c == "'" and (text[j+1] == "\\" or text[j+2] == "'"):
            j = text.index("'", j + 2)
        elif text.startswith("//", j):
            j = text.index("\n", j)
        elif c in pairs:
            stack.append(pairs[c])
        elif stack and c == stack[-1]:
            stack.pop()
            if not stack:
                return text[i:j+1]
        j += 1
    raise Lost("unbalanced text")


def strip_attrs(text):
    """drops outer attributes and doc comments of types and fields"""
    out, i = [], 0
    while i < len(text):
        if text.startswith("#[", i):
            i += 1 + len(balanced(text, i + 1))
        elif text.startswith("//", i):
            i = text.index("\n", i)
        else:
            out.append(text[i])
            i += 1
    return re.sub(r"\n\s*\n+", "\n", "".join(out))


class Fn:
    def __init__(self, src, name, contract="", ret=None, props=(), closures=None,
                 loops=None, pre="", post="", subs=(), rename=None, attrs="",
                 wrap=None, tail=None, generics=None, keep_vis=False,
                 sigsub=(), dropwhere=False, lift=(), nret=None, xform=None):
        self.xform = xform
        self.src, self.name, self.contract = src, name, contract
        self.ret, self.props = ret, list(props)
        self.closures, self.loops = closures, loops
        self.pre, self.post, self.subs = pre, post, list(subs)
        self.rename, self.attrs, self.wrap = rename, attrs, wrap
        self.sigsub = list(sigsub)
        self.dropwhere = dropwhere
        self.lift = list(lift)
        self.nret = nret
        self.id = None


class Unit:
    """subs: mechanical rewrites applied to every extracted function."""
    def __init__(self, name, prelude, subs=(), rlimit=30, extra=()):
        self.name, self.prelude, self.subs = name, prelude, list(subs)
        self.items = []     # strings or Fn
        self.rlimit = rlimit
        self.extra = list(extra)
        self.dropped = []
        self.assumed = []
        # (regex that ends in an opening bracket, replacement): the text
        # through the matching bracket is replaced before anything else
        self.drop_exprs = []

    def text(self, s):
        self.items.append(s)

    def type(self, src, name, subs=(), attrs=""):
        self.items.append(("type", src, name, list(subs), attrs))

    def fn(self, *a, **k):
        f = Fn(*a, **k)
        f.id = "%s::%s" % (f.src, f.name)
        n = 1 + sum(1 for g in self.fns() if g.id.split("#")[0] == f.id)
        if n > 1:       # one text verified for several types
            f.id += "#%d" % n
        self.items.append(f)
        return f

    def open(self, header, specs=""):
        """starts an impl block that holds several functions"""
        self.items.append(("open", header + "\n" + specs))

    def close(self):
        self.items.append(("close",))

    def fns(self):
        return [f for f in self.items if isinstance(f, Fn)]


def apply_subs(text, subs):
    for s in subs:
        a, b = s[0], s[1]
        if isinstance(a, str):
            text = text.replace(a, b)
        else:
            text = a.sub(b, text)
    return text


def closure_edit(s, c, spec):
    """Edits that give a closure typed parameters, a named result and a
    contract.  spec: {"params": "x: u8", "ret": "(r: bool)", "ens": "..",
    "req": "..", "auto": True}"""
    body = s.slice(c["body"])
    edits = []
    if spec.get("params") is not None:
        a, b = c["or1"][1], c["or2"][0]
        edits.append((a, b, spec["params"]))
    ens = spec.get("ens", "")
    if spec.get("auto"):
        bb = apply_subs(body, spec.get("autosubs", ()))
        ens = "%s == (%s)" % (spec["auto"], "{ %s %s }" % (spec["pre"], bb)
                              if spec.get("pre") else bb)
    head = ""
    if spec.get("ret"):
        a = c["or2"][1]
        b = a
        if c["ret"]:
            b = c["ret"]["range"][1]
        head = " -> %s " % spec["ret"]
        if spec.get("req"):
            head += "\n requires %s\n" % spec["req"]
        if ens:
            head += "\n ensures %s\n" % ens
        edits.append((a, b, head))
    pre = spec.get("pre", "")
    if not c["block"] or pre or spec.get("post"):
        edits.append((c["body"][0], c["body"][0], "{ " + pre + " "))
        edits.append((c["body"][1], c["body"][1], " }"))
    return edits


def drops(s, block, rules):
    out = []
    text = s.raw[block[0]:block[1]].decode("latin-1")
    for rx, new in rules:
        for m in rx.finditer(text):
            e = m.end() - 1 + len(balanced(text, m.end() - 1))
            out.append((block[0] + m.start(), block[0] + e, m.expand(new)))
    out.sort(key=lambda x: (x[0], -x[1]))
    keep = []
    for d in out:
        if not keep or d[0] >= keep[-1][1]:
            keep.append(d)
    return keep


def compose_fn(f, unit, stub=False, probe=False, repo=None, base=None):
    """The text of one function with its contract"""
    s = None
    try:
        s = source(f.src, repo)
        fn = s.fn(f.name)
    except Lost:
        if not stub:
            raise
        fn = None
    if fn is None:
        sig = base["sig"]
    else:
        sig = strip_attrs(s.slice(fn["sig"]))
        if fn["where"] and f.dropwhere:
            sig = sig.replace(strip_attrs(s.slice(fn["where"])), "")
        sig = sig.rstrip().rstrip(",")
    sig0 = sig
    # the result gets a name
    m = None
    where = ""
    k = re.search(r"\bwhere\b", sig)
    if k:
        where = sig[k.start():].rstrip().rstrip(",")
        sig = sig[:k.start()].rstrip()
    par = find_params_end(sig)
    head, tail = sig[:par], sig[par:]
    if "->" in tail:
        rt = tail.split("->", 1)[1].strip()
        head += " -> (%s: %s)" % (f.ret or "ret", rt)
    sig = head + ("\n    " + where if where else "")
    if f.rename:
        sig = re.sub(r"\bfn\s+\w+", "fn " + f.rename, sig, 1)
    sig = apply_subs(sig, f.sigsub)
    sig = apply_subs(sig, unit.subs)
    if stub:
        body = "{ unimplemented!() }"
        return ("#[verifier::external_body]\n" + sig + "\n" + f.contract
                + "\n" + body + "\n"), sig0
    b = fn["block"]
    edits = []
    gone = drops(s, b, unit.drop_exprs)
    inside = lambda r: any(a <= r[0] and r[1] <= e for a, e, _ in gone)
    edits += gone
    cl = [c for c in fn["closures"] if not inside([c["or1"][0], c["body"][1]])]
    if f.closures is not None:
        if callable(f.closures):
            specs = f.closures(s, fn)
        else:
            specs = f.closures
            if len(specs) != len(cl):
                raise Lost("%s: %d closures, %d expected" % (
                    f.id, len(cl), len(specs)))
        for c, sp in zip(cl, specs):
            if sp:
                edits += closure_edit(s, c, sp)
    lp = [l for l in fn["loops"] if not inside(l["body"])]
    want = f.loops or []
    if len(want) != len(lp):
        raise Lost("%s: %d loops, %d expected" % (f.id, len(lp), len(want)))
    for l, sp in zip(lp, want):
        inv = sp if isinstance(sp, str) else sp["inv"]
        edits.append((l["body"][0], l["body"][0], "\n" + inv + "\n"))
        if not isinstance(sp, str):
            if sp.get("pre"):
                edits.append((l["body"][0]+1, l["body"][0]+1,
                              "\n" + sp["pre"] + "\n"))
            if sp.get("post"):
                edits.append((l["body"][1]-1, l["body"][1]-1,
                              "\n" + sp["post"] + "\n"))
            if sp.get("iter"):
                # names the ghost iterator: `for x in it: expr`
                h = s.slice([l["range"][0], l["body"][0]])
                k = h.index(" in ")
                p = l["range"][0] + len(h[:k+4].encode())
                edits.append((p, p, sp["iter"] + ": "))
            if sp.get("before"):
                edits.append((l["range"][0], l["range"][0],
                              sp["before"] + "\n"))
    text = bytearray()
    pos = b[0] + 1
    for a, e, new in sorted(edits, key=lambda x: (x[0], x[1])):
        text += s.raw[pos:a] + new.encode()
        pos = max(pos, e)
    text += s.raw[pos:b[1]-1]
    body = drop_comments(text.decode())
    if f.xform:
        body = f.xform(body)
    body = apply_subs(body, f.subs)
    body = apply_subs(body, unit.subs)
    lifted = ""
    for l in f.lift:
        body, fn_ = lift(body, l, f)
        lifted += fn_
    pre = f.pre
    if probe:
        body = re.sub(r"\breturn\b([^;]*);\s*$", r"\1", body)
        body = "{ let __probe = {\n" + pre + "\n" + body + \
            "\n}; assert(false); __probe }"
    elif f.post:
        body = "{\n" + pre + "\nlet __r = {" + body + "\n};\n" + f.post + \
            "\n__r }"
    else:
        body = "{\n" + pre + "\n" + body + "\n}"
    return (lifted + f.attrs + "\n" + sig + "\n" + f.contract + "\n" + body
            + "\n"), sig0


def let_end(body, var, who):
    """(start, end) of the expression of `let var = ..;`"""
    m = re.search(r"\blet\s+(mut\s+)?%s\b[^=]*=" % var, body)
    if not m:
        raise Lost("%s: no variable %s" % (who, var))
    i = m.end()
    while body[i] != ";":
        if body[i] in "([{":
            i += len(balanced(body, i))
        else:
            i += 1
    return m.end(), i


def lift(body, l, f):
    """Moves an expression into a function of its own, with a contract, and
    calls it: the value of a variable ("let"), what follows its declaration
    in its block ("after"), or the argument of a call ("arg": a regex that
    ends in the opening bracket)"""
    if "let" in l:
        a, b = let_end(body, l["let"], f.id)
    elif "after" in l:
        a = let_end(body, l["after"], f.id)[1] + 1
        b = a
        while b < len(body) and body[b] != "}":
            b += len(balanced(body, b)) if body[b] in "([{" else 1
    else:
        m = re.search(l["arg"], body)
        if not m:
            raise Lost("%s: no %s" % (f.id, l["arg"]))
        a = m.end()
        b = a - 1 + len(balanced(body, a - 1)) - 1
    fn = "fn %s<%s>(%s) -> (ret: %s)\n%s\n{\n%s\n%s\n}\n" % (
        l["name"], l.get("generics", "S"), l.get("params", ""), l["ret"],
        l["contract"], l.get("pre", ""), body[a:b])
    return body[:a] + " %s(%s)" % (l["name"], l.get("args", "")) + body[b:], fn


def drop_comments(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            out.append(t[i:j+1])
            i = j + 1
        elif t[i] == "'" and i + 2 < len(t) and (t[i+1] == "\\" or t[i+2] == "'"):
            j = t.index("'", i + 2 if t[i+1] != "\\" else i + 3)
            out.append(t[i:j+1])
            i = j + 1
        elif t.startswith("//", i) and not t.startswith("//@", i):
            i = t.find("\n", i)
            if i < 0:
                break
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def inline_maps(text, loops):
    """Iterator::map + collect and Option::map with a closure that borrows the
    context mutably, written out as the loop or match they stand for:
      E.iter().map(|P| B).collect::<Result<_, _>>()?
        =>  { let mut out = Vec::new(); for P in E.iter() { out.push(B?); } out }
      E.as_ref().map(|P| B).transpose()?
        =>  match E.as_ref() { Some(P) => Some(B?), None => None }
    `loops`: for each loop, in textual order, (type, invariant, proof at the start,
    proof at the end, wrapper of the result)"""
    m = re.search(r"([\w.]+)\s*\.(iter|as_ref)\(\)\s*\.map(\()", text)
    if not m:
        return text
    arg = balanced(text, m.start(3))
    after = text[m.start(3) + len(arg):]
    c = re.match(r"\(\s*\|([^|]*)\|(.*)\)$", arg, re.S)
    if not c:
        raise Lost("unexpected closure")
    pat, body = c.groups()
    e = m.group(1)
    if m.group(2) == "iter":
        k = re.match(r"\s*\.collect::<Result<_, _>>\(\)\?", after)
        if not k or not loops:
            raise Lost("unexpected iterator chain")
        ty, inv, pre, post, fin = loops.pop(0)
        body = inline_maps(body, loops)
        new = ("{ let mut out: %s = Vec::new(); #[verifier::loop_isolation(false)] for %s in it: %s.iter()\n%s\n{ %s\n"
               "let x = done(%s)?; out.push(x);\n%s }\n %s }" % (
                   ty, pat, e, inv, pre, body, post, fin))
    else:
        k = re.match(r"\s*\.transpose\(\)\?", after)
        if not k:
            raise Lost("unexpected chain")
        body = inline_maps(body, loops)
        new = "match %s.as_ref() { Some(%s) => Some(done(%s)?), None => None }" % (
            e, pat, body)
    return text[:m.start()] + new + inline_maps(after[k.end():], loops)


def find_params_end(sig):
    """index just past the `)` of the parameter list"""
    i = sig.index("fn ")
    j = i
    depth = 0
    while j < len(sig):
        c = sig[j]
        if c == "<":
            depth += 1
        elif c == ">" and sig[j-1] != "-":
            depth -= 1
        elif c == "(" and depth == 0:
            return j + len(balanced(sig, j))
        elif c == "(":
            j += len(balanced(sig, j)) - 1
        j += 1
    raise Lost("no parameters in " + sig)


def load_unit(name):
    path = os.path.join(VERIF, "contracts", "u_%s.py" % name)
    spec = importlib.util.spec_from_file_location("u_" + name, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, "contracts"))
    spec.loader.exec_module(m)
    return m.unit()


def compose(unit, stubs=(), probe=False, repo=None, baseline=None):
    """-> text, [(first line, last line, fn)], {fn id: reason} of those that
    could not be brought in"""
    lost = {}
    out = ["use vstd::prelude::*;\n"]
    regions = []
    line = [2]
    sigs = {}

    def put(t):
        if not t.endswith("\n"):
            t += "\n"
        out.append(t)
        line[0] += t.count("\n")
    for p in unit.prelude:
        t = open(os.path.join(VERIF, "contracts", p)).read()
        m = p[:-3]
        put("mod %s { #[allow(unused_imports)] use vstd::prelude::*; "
            "#[allow(unused_imports)] use super::*;\n" % m)
        put(t)
        put("}\n#[allow(unused_imports)] pub use %s::*;" % m)
    group = False
    for it in unit.items:
        if isinstance(it, str):
            put(it)
        elif it[0] == "open" if isinstance(it, tuple) else False:
            put("verus!{ " + it[1])
            group = True
        elif it[0] == "close" if isinstance(it, tuple) else False:
            put("} }")
            group = False
        elif isinstance(it, tuple):
            _, src, name, subs, attrs = it
            t = strip_attrs(source(src, repo).type(name))
            t = re.sub(r"pub\s*\(\s*crate\s*\)", "pub", t)
            if not t.lstrip().startswith("pub"):
                t = "pub " + t.lstrip()
            put("verus!{\n" + attrs + "\n" + apply_subs(apply_subs(t, subs), unit.subs)
                + "\n}")
        else:
            f = it
            base = (baseline or {}).get(f.id)
            stub = f.id in stubs
            try:
                text, sig = compose_fn(f, unit, stub, probe, repo, base)
            except Lost as e:
                lost[f.id] = str(e)
                if not base:
                    raise
                text, sig = compose_fn(f, unit, True, False, repo, base)
                stub = True
            sigs[f.id] = {"sig": sig}
            w = f.wrap or ("", "")
            if not group:
                put("verus!{ " + w[0])
            a = line[0]
            put(text)
            if not stub:
                regions.append((a, line[0] - 1, f))
            if not group:
                put(w[1] + " }")
    put("fn main() {}")
    return "".join(out), regions, lost, sigs


SEMANTIC = re.compile(
    r"postcondition not satisfied|precondition not satisfied|"
    r"invariant not satisfied|assertion failed|"
    r"possible arithmetic|possible division|possible bit shift|"
    r"decreases not satisfied|unwrap|index .* bounds|"
    r"unable to prove|might not be allowed|recommendation not met|"
    r"cannot show|assert_by|loop invariant|termination|"
    r"unreachable|panic")
LIMIT = re.compile(r"Resource limit|rlimit|timed? ?out|while loop: not all")


def verus(path, rlimit, extra=()):
    t0 = time.time()
    r = subprocess.run(
        ["verus", path, "--output-json", "--error-format=json", "--time",
         "--rlimit", str(rlimit), "--num-threads", "8"] + list(extra),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=BUILD)
    try:
        res = json.loads(r.stdout)
    except ValueError:
        res = {}
    msgs = []
    for l in r.stderr.decode(errors="replace").splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                msgs.append(d)
    return res, msgs, time.time() - t0, r.stderr.decode(errors="replace")


def run_unit(name, repo=None, probe=False, keep=None, baseline=None):
    """Verifies one unit against the current source.  Functions that cannot
    be brought within reach are replaced by their assumed contract, one at a
    time, and reported as undecided."""
    t0 = time.time()
    unit = load_unit(name)
    if baseline is None and os.path.exists(BASELINE):
        baseline = json.load(open(BASELINE)).get(name, {})
    stubs, undecided, failed = set(), {}, {}
    os.makedirs(os.path.join(BUILD, "units"), exist_ok=True)
    path = keep or os.path.join(BUILD, "units", "%s%s_%d.rs" % (
        name, "_probe" if probe else "", os.getpid()))
    runs = 0
    res = {}
    spent = 0.0
    fatal = None
    while True:
        text, regions, lost, sigs = compose(unit, stubs, probe, repo, baseline)
        for k, v in lost.items():
            undecided[k] = v
        with open(path, "w") as f:
            f.write(text)
        res, msgs, t, raw = verus(path, unit.rlimit, unit.extra)
        spent += t
        runs += 1
        hard = {}
        failed = {}
        orphan = []
        for d in msgs:
            if d["message"].startswith("aborting due"):
                continue
            hit = None
            prim = None
            for sp in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                ln = sp["line_start"]
                if prim is None:
                    prim = ln
                for a, b, fn in regions:
                    if a <= ln <= b:
                        hit = fn
                        break
                if hit:
                    break
            # a failed precondition has its primary span at the callee's
            # contract: the call site is the region to blame
            if "precondition" in d["message"] or \
                    "postcondition" in d["message"]:
                for sp in d["spans"]:
                    lab = sp.get("label") or ""
                    if lab.startswith("failed "):
                        continue
                    for a, b, fn in regions:
                        if a <= sp["line_start"] <= b:
                            hit = fn
            msg = d["message"]
            if SEMANTIC.search(msg) and d.get("code") is None:
                if hit:
                    failed.setdefault(hit.id, []).append(
                        d.get("rendered") or msg)
                else:
                    orphan.append(d.get("rendered") or msg)
            else:
                if hit:
                    hard.setdefault(hit.id, []).append(d.get("rendered") or msg)
                else:
                    orphan.append(d.get("rendered") or msg)
        vr = res.get("verification-results", {})
        if hard and not probe:
            new = [k for k in hard if k not in stubs]
            for k in new:
                undecided[k] = "; ".join(hard[k])[:1500]
            stubs.update(new)
            if new and runs < 8:
                continue
        if probe and hard:
            for k in hard:
                undecided[k] = "; ".join(hard[k])[:1500]
            stubs.update(hard)
            if runs < 4:
                continue
        if orphan:
            fatal = "\n".join(orphan)[:3000]
        elif not vr:
            fatal = raw[-1500:]
        break
    if not keep:
        os.unlink(path)
    tt = {}
    try:
        for m in res["times-ms"]["smt"]["smt-run-module-times"]:
            for x in m.get("function-breakdown", []):
                tt[x["function"]] = x["time"]
    except (KeyError, TypeError):
        pass
    return {
        "unit": name,
        "verified": vr.get("verified", 0), "errors": vr.get("errors", 0),
        "functions": [fn.id for _, _, fn in regions],
        "props": {fn.id: fn.props for fn in unit.fns()},
        "failed": failed, "undecided": undecided, "fatal": fatal,
        "smt_ms": (res.get("times-ms", {}).get("smt", {}) or {}).get(
            "total", 0),
        "verus_ms": (res.get("times-ms", {}) or {}).get("total", 0),
        "solver": "z3 (bundled with Verus)",
        "assumed": unit.assumed, "dropped": unit.dropped,
        "runs": runs, "wall_s": round(time.time() - t0, 2),
        "sigs": sigs, "text": text,
        "trusted": trusted(text),
    }


def trusted(text):
    """a mechanical scan for everything the unit takes on trust"""
    out = []
    for m in re.finditer(
            r"#\[verifier::external_body\][^;{]*?\b(fn|struct|enum)\s+(\w+)",
            text):
        out.append("external_body %s %s" % m.groups())
    for m in re.finditer(r"\bassume_specification[^\[]*\[\s*([^\]]+?)\s*\]",
                         text):
        out.append("assume_specification " + m.group(1))
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", text):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"#\[verifier::external_type_specification\]", text):
        out.append("external_type_specification")
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append("%s(..)" % m.group(1))
    for m in re.finditer(r"\buninterp\s+spec\s+fn\s+(\w+)", text):
        out.append("uninterpreted " + m.group(1))
    return sorted(set(out))


if __name__ == "__main__":
    build_rsindex()
    if sys.argv[1] == "baseline":
        d = {}
        for n in sys.argv[2:]:
            u = load_unit(n)
            text, regions, lost, sigs = compose(u)
            d[n] = sigs
        old = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
        old.update(d)
        json.dump(old, open(BASELINE, "w"), indent=1, sort_keys=True)
        sys.exit()
    probe = "--probe" in sys.argv
    for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
        try:
            r = run_unit(n, probe=probe, keep="/tmp/unit_%s.rs" % n)
        except Lost as e:
            print("LOST", e)
            continue
        print(n, "verified", r["verified"], "errors", r["errors"],
              "runs", r["runs"], "wall", r["wall_s"])
        if probe:
            ok = [f for f in r["functions"] if f in r["failed"]]
            print("probe: %d of %d functions refute false; vacuous: %s" % (
                len(ok), len(r["functions"]),
                [f for f in r["functions"] if f not in r["failed"]]))
            continue
        for k, v in r["undecided"].items():
            print("UNDECIDED", k, v)
        for k, v in r["failed"].items():
            print("FAILED", k)
            for m in v[:6]:
                print("   ", m[:1500])
        if r["fatal"]:
            print("FATAL", r["fatal"][:2500])
