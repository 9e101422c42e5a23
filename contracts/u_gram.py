import re
from vf import Unit, apply_subs, Lost


def repeats(m):
    lo, hi = "0", "None"
    for k, a in re.findall(r"\.(at_least|at_most|exactly)\(([^()]*)\)", m.group(1)):
        if k in ("at_least", "exactly"):
            lo = a
        if k in ("at_most", "exactly"):
            hi = "Some(%s)" % a
    return ".repeated_g(%s, %s)" % (lo, hi)


def unit():
    u = Unit("gram", ["p_gram.rs", "p_kdl.rs", "p_node.rs"], subs=[
        (re.compile(r"\.repeated\(\)((?:\s*\.(?:at_least|at_most|exactly)\([^()]*\))*)"), repeats),
        (re.compile(r"impl Parser<char,\s*(.*?),\s*Error\s*=\s*Error<S>>(\s*\+ Clone)?", re.S), r"P<\1, S>"),
        (re.compile(r"<S: Span>"), "<S>"),
        (re.compile(r'\bjust\("'), 'just_str("'),
        (re.compile(r"(\w+)\.into_iter\(\)\.collect(?:::<String>)?\(\)\.into\(\)"), r"into_box(collect_string(\1))"),
        (re.compile(r"(\w+)\.into_iter\(\)\.collect(?:::<String>)?\(\)"), r"collect_string(\1)"),
        (re.compile(r"(\w+)\.is_digit\((\w+)\)\s*\.then\(\|\| *(\w+)\)\s*\.ok_or_else\(\|\| *error_value\(\)\)"),
         r"(if is_digit(\1, \2) { Ok(\3) } else { Err(error_value()) })"),
        (re.compile(r"\bmatch &(\w+)\[\.\.\]"), r"match \1.as_str()"),
        (re.compile(r"(?<![.\w])c\.is_digit\((\w+)\)"), r"is_digit(*c, \1)"),
        (re.compile(r"(\w+)\.iter\(\)\.any\("), r"any_of(&\1, "),
        (re.compile(r"\.separated_by\(((?:[^()]|\([^()]*\))*)\)((?:\s*\.allow_(?:leading|trailing)\(\))*)"), lambda m: separated(m)),
        (re.compile(r"(\w+)\.into_iter\(\)\.filter_map\((.*?)\)\.collect\(\)", re.S), r"filter_map_collect(\1, \2)"),
        (re.compile(r"(\w+)\.into_iter\(\)\.filter\((.*?)\)\.collect\(\)", re.S), r"filter_collect(\1, \2)"),
        (re.compile(r"(\w+)\.extend\((\w+)\.into_iter\(\)\.filter\((.*?)\)\);", re.S), r"str_append(&mut \1, filter_collect(\2, \3));"),
        (re.compile(r"(\w+)\.map\(\|c\| (\w+)\.push\(c\)\);"), r"if let Some(c) = \1 { str_push(&mut \2, c); }"),
        ("use PropOrArg::*;", ""), (".map(Arg)", ".map(mk_arg)"),
        (".map(Err)", ".map(mk_err)"), (".map(Ok)", ".map(mk_ok)"), (".map(Literal::String)", ".map(mk_string)"),
        ("TypeName::from_string", "type_name_from_string"),
        (re.compile(r"(?<![.\w:])s\.into\(\)"), "into_box(s)"),
        ("u32::from_str_radix(", "u32_from_str_radix("), ("char::try_from(", "char_try_from("),
        (re.compile(r"(?<![.\w])emit\("), "emit.emit("),
        (re.compile(r"\.recover_with\(skip_until\((\[.*?\]), (.*?)\)\)", re.S), r".recover_until(\1, \2)"),
    ])
    u.drop_exprs = [
        (re.compile(r"(?<![.\w)])(\w+)\.map_err\("), r"with_error(\1)"),
        (re.compile(r"\bString::with_capacity\("), "String::new()"),
        (re.compile(r"\.map_err\("), ""),
        (re.compile(r"\.map_err_with_span\("), ""),
        (re.compile(r"\bError::\w+ \{"), "error_value()"),
    ]
    u.dropped = [
        "map_err and map_err_with_span (they only change error values) and "
        "the construction of error values",
        "chumsky's parser types are replaced by P<O, S> with assumed "
        "contracts; repeated().at_least/at_most/exactly is written as one call",
    ]
    u.text("verus!{ broadcast use forwards; }")
    for x in ("Literal", "Decimal", "Integer", "Radix"):
        u.type("ast.rs", x)
    u.type("span.rs", "Spanned")
    u.text("verus!{ #[verifier::external_body] pub struct TypeName { x: u8 } }")
    RR = "#[verifier::reject_recursive_types(S)]"
    for x in ("Value",):
        u.type("ast.rs", x, attrs=RR)
    u.text("verus!{ pub type SpannedChildren<S> = Spanned<Vec<SpannedNode<S>>, S>; pub type SpannedName<S> = Spanned<Box<str>, S>; pub type SpannedNode<S> = Spanned<Node<S>, S>; }")
    u.type("ast.rs", "Node", attrs=RR)
    u.type("ast.rs", "Document", attrs=RR)
    u.type("grammar.rs", "PropOrArg", attrs=RR)
    u.text("use PropOrArg::*;")
    u.open("impl<T, S> Spanned<T, S> {")
    u.fn("span.rs", "<Spanned<T,S>>::map", "    requires f.requires((self.value,)) ensures r.span == self.span, f.ensures((self.value,), r.value)", ret="r", props=["C10"])
    u.close()
    G = "grammar.rs"

    def f(name, props, ens, **k):
        u.fn(G, name, "    ensures forall|s: Seq<char>, i: int| within(s, i) ==> " + ens, props=props, **k)

    def is_(spec):
        return "#[trigger] d(ret, s, i) == %s" % spec
    char_closure = [{"params": "c: &char", "ret": "(r: bool)", "auto": "r"}]
    f("begin_comment", ["C07"], is_("(if at(s, i, '/') && at(s, i + 1, which) { ok((), i + 2) } else { fail() })"))
    f("newline", ["C06"], is_("newline_s(s, i)"))
    f("ws_char", ["C06"], is_("ws_char_s(s, i)"), closures=char_closure)
    f("id_char", ["C06"], is_("one(s, i, is_id(s[i]))"), closures=char_closure)
    f("id_sans_dig", ["C06"], is_("one(s, i, is_id(s[i]) && !is_dec(s[i]))"), closures=char_closure)
    f("id_sans_sign_dig", ["C06"], is_("one(s, i, is_id(s[i]) && !is_dec(s[i]) && !is_sign(s[i]))"), closures=char_closure)
    f("ws", ["C06", "C07"], is_("ws_s(s, i)"), pre="broadcast use rep_wsc;")
    f("comment", ["C07"], is_("comment_s(s, i)"), pre="broadcast use until_line_end;")
    f("ml_comment", ["C07"], is_("ml_comment_s(s, i)"), closures=[{"params": "comment: P<(), S>", "ret": "(r: P<(), S>)",
      "ens": "forall|s: Seq<char>, i: int| within(s, i) && (forall|k: int| i < k <= s.len() ==> #[trigger] d(comment, s, k) == ml_comment_s(s, k)) ==> #[trigger] d(r, s, i) == ml_comment_s(s, i)"}],
      pre="broadcast use {rep_comment, comment_body_end, close_text}; proof { reveal_strlit(\"*/\"); }", subs=[(re.compile(r"recursive::<[^(]*>\("), "recursive(Ghost(|s: Seq<char>, i: int, o: Out<()>| o == ml_comment_s(s, i)), ")])
    def eqv(spec):
        return "eqv(#[trigger] d(ret, s, i), %s)" % spec
    f("raw_string", ["C03"], is_("raw_s(s, i)"), pre="broadcast use {rep_hash, rep_exact};", closures=[
        {"params": "v: Vec<char>", "ret": "(r: usize)", "auto": "r"},
        {"params": "sharp_num: usize", "ret": "(r: P<(Vec<char>, ()), S>)",
         "ens": "forall|s: Seq<char>, i: int| within(s, i) ==> with(#[trigger] d(r, s, i), d(r, s, i)->v.0@) == raw_rest(s, i, sharp_num as int)",
         "pre": """proof { assert forall|p: P<(), S>, s: Seq<char>, i: int| within(s, i) && (forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == close_out(s, k, sharp_num as int))
            implies #[trigger] until(p, s, i, i) == (match raw_end(s, i, sharp_num as int) { Some(e) => ok((s.subrange(i, e), ()), e + 1 + sharp_num), None => fail() })
            by { until_raw(p, s, i, i, sharp_num as int); } }"""},
        {"params": "t_: (Vec<char>, ())", "ret": "(r: Box<str>)", "ens": "r == boxed(t_.0@)", "pre": "let (text, u_) = t_;"}])
    u.fn(G, "esc_char", "ensures forall|s: Seq<char>, i: int| within(s, i) ==> " + eqv("esc_s(s, i)"), props=["C03"],
         pre="broadcast use {rep_hex, find_in, find_same};", closures=[
        {"params": "span: S, c: char", "ret": "(r: Result<char, Error<S>>)", "ens": "match esc_of(c) { Some(x) => r == Ok::<char, Error<S>>(x), None => r is Err }"},
        {"params": "span: S, c: char", "ret": "(r: Result<char, Error<S>>)", "ens": "if is_hex(c) { r == Ok::<char, Error<S>>(c) } else { r is Err }"},
        None, None,
        {"params": "hex_chars: Vec<char>, span: S", "ret": "(r: Result<char, Error<S>>)",
         "ens": "all_hex(hex_chars@) && hex_chars@.len() <= 6 ==> match char_of(hexnum(hex_chars@)) { Some(c) => r == Ok::<char, Error<S>>(c), None => r is Err }"},
        {"params": "n: u32", "ret": "(r: Result<char, Error<S>>)", "ens": "match char_of(n as int) { Some(c) => r == Ok::<char, Error<S>>(c), None => r is Err }"},
        {"params": "x_: S", "ret": "(r: char)", "auto": "r"},
        ])
    u.fn(G, "escaped_string", "ensures forall|s: Seq<char>, i: int| within(s, i) ==> " + eqv("escaped_s(s, i)"), props=["C03"],
         pre="broadcast use rep_str;", closures=[
        {"params": "c_: &char", "ret": "(r: bool)", "auto": "r", "pre": "let c = *c_;"},
        {"params": "val: Vec<char>", "ret": "(r: Box<str>)", "ens": "r == boxed(val@)"}])
    f("string", ["C03"], eqv("string_s(s, i)"))
    BOX = {"params": "v: Vec<char>", "ret": "(r: String)", "ens": "r@ == v@"}
    f("bare_ident", ["C06"], is_("bare_s(s, i)"), pre="broadcast use {str_ext, rep_id, rep_sign, join1, run_in, single}; proof { reveal_with_fuel(run, 3); }", closures=[BOX,
        {"params": "s: String, span: S", "ret": "(r: Result<Box<str>, Error<S>>)",
         "ens": "if is_keyword(s@) { r is Err } else { r == Ok::<Box<str>, Error<S>>(boxed(s@)) }"}])
    f("keyword", ["C06", "C15"], is_("keyword_s(s, i)"), pre='proof { reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); }')
    RAD = "requires 2 <= radix <= 16 "
    u.fn(G, "digit", RAD + "ensures forall|s: Seq<char>, i: int| within(s, i) ==> " + is_("one(s, i, hexval(s[i]) < radix)"), props=["C04"],
         closures=[{"params": "c: &char", "ret": "(r: bool)", "ens": "r == (hexval(*c) < radix)"}])
    u.fn(G, "digits", RAD + "ensures forall|s: Seq<char>, i: int| within(s, i) ==> seq_of(#[trigger] d(ret, s, i)) == ok(s.subrange(i, digits_end(s, i, radix as int)), digits_end(s, i, radix as int)) && i <= digits_end(s, i, radix as int) <= s.len()", props=["C04"],
         pre="""proof { assert forall|p: P<char, S>, s: Seq<char>, i: int| within(s, i) && (forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == one(s, k, s[k] == '_' || hexval(s[k]) < radix))
            implies #[trigger] reps(p, s, 0, None, i, 0) == ok(s.subrange(i, digits_end(s, i, radix as int)), digits_end(s, i, radix as int)) && i <= digits_end(s, i, radix as int) <= s.len()
            by { rep_chars(p, digit_class(radix as int), s, 0, i); } }""",
         closures=[{"params": "c: &char", "ret": "(r: bool)", "ens": "r == (*c == '_' || hexval(*c) < radix)"}])
    f("decimal_number", ["C04"], is_("decimal_s(s, i)"), pre="broadcast use {run_in, decimal_text};", closures=[
        {"params": "v: Vec<char>", "ret": "(r: Literal)", "ens": "r == dec_lit(v@)"},
        {"params": "c: &char", "ret": "(r: bool)", "ens": "r == is_mark(*c)"},
        {"params": "c: &char", "ret": "(r: bool)", "ens": "r == (*c != '_')"}])
    LIT = {"params": "s: Vec<char>", "ret": "(r: (Radix, Vec<char>))", "auto": "r"}
    f("radix_number", ["C04"], is_("radix_s(s, i)"), pre="broadcast use {join1, run_in};", closures=[
        LIT, LIT, LIT,
        {"params": "t_: (Option<char>, (Radix, Vec<char>))", "ret": "(r: Literal)", "pre": "let (sign, (radix, value)) = t_; proof { reveal(cat); reveal(lone); reveal(none); }",
         "ens": "r == Literal::Int(Integer(t_.1.0, boxed(cat(t_.0.chs(), without_(t_.1.1@)))))"},
        None,
        {"params": "c_: &char", "ret": "(r: bool)", "auto": "r", "pre": "let c = *c_;"}])
    f("number", ["C04"], is_("number_s(s, i)"))
    f("literal", ["C08"], is_("literal_s(s, i)"))
    f("ident", ["C09", "C06"], is_("ident_s(s, i)"), closures=[
        {"params": "res: Result<Box<str>, Literal>, span: S", "ret": "(r: Result<Box<str>, Error<S>>)",
         "ens": "match res { Ok(v) => r == Ok::<Box<str>, Error<S>>(v), Err(_) => r is Err }"}])
    f("type_name", ["C13", "C08"], is_("type_name_s(s, i)"))
    u.fn(G, "spanned", "ensures forall|s: Seq<char>, i: int| within(s, i) ==> #[trigger] d(ret, s, i) == with(d(p, s, i), Spanned { span: spn::<S>(s, i, d(p, s, i)->j), value: d(p, s, i)->v })",
         props=["C10"], closures=[{"params": "value: T, span: S", "ret": "(r: Spanned<T, S>)", "auto": "r"}],
         dropwhere=True, sigsub=[("<T, S, P>(p: P)", "<T, S>(p: P<T, S>)")])
    f("esc_line", ["C07"], is_("esc_line_s(s, i)"), pre="broadcast use rep_ws;")
    f("node_space", ["C07"], is_("node_space_s(s, i)"))
    f("type_name_value", ["C08", "C10", "C13"], is_("typed_s::<S>(s, i)"), closures=[
        {"params": "t_: (Spanned<TypeName, S>, Spanned<Literal, S>)", "ret": "(r: Value<S>)", "ens": "r == (Value { type_name: Some(t_.0), literal: t_.1 })", "pre": "let (type_name, literal) = t_;"}])
    f("value", ["C08", "C10"], eqv("value_s::<S>(s, i)"), pre="broadcast use no_literal;", closures=[
        {"params": "literal: Spanned<Literal, S>", "ret": "(r: Value<S>)", "auto": "r"}])
    LV = "t_: (Spanned<Literal, S>, Option<Value<S>>)"
    BV = "t_: (SpannedName<S>, Option<Value<S>>)"
    BARE = "match t_.1 { Some(v) => r == PropOrArg::Prop(t_.0, v), None => r == PropOrArg::Arg(Value { type_name: None, literal: Spanned { span: t_.0.span, value: Literal::String(t_.0.value) } }) }"
    f("prop_or_arg_inner", ["C08", "C06", "C09", "C10"], is_("item_s::<S>(s, i)"), closures=[
        {"params": "t_: (SpannedName<S>, Value<S>)", "ret": "(r: PropOrArg<S>)", "auto": "r", "pre": "let (name, value) = t_;"},
        {"params": LV + ", x_: S", "ret": "(r: Result<PropOrArg<S>, Error<S>>)", "pre": "let (name, value) = t_;",
         "ens": """match t_.1 {
            None => r == Ok::<PropOrArg<S>, Error<S>>(PropOrArg::Arg(Value { type_name: None, literal: t_.0 })),
            Some(v) => match t_.0.value { Literal::String(x) => r == Ok::<PropOrArg<S>, Error<S>>(PropOrArg::Prop(Spanned { span: t_.0.span, value: x }, v)), _ => r is Err } }"""},
        {"params": BV + ", span: S, emit: &mut Emitter<S>", "ret": "(r: (SpannedName<S>, Option<Value<S>>))", "pre": "let (name, value) = t_;",
         "ens": "r == t_ && (t_.1 is Some ==> final(emit).x@ == old(emit).x@) && (t_.1 is None ==> final(emit).x@.len() > 0)"},
        {"params": BV, "ret": "(r: PropOrArg<S>)", "pre": "let (name, value) = t_;", "ens": BARE}])
    f("prop_or_arg", ["C07", "C08"], is_("entry_s::<S>(s, i)"), closures=[{"params": "x_: PropOrArg<S>", "ret": "(r: PropOrArg<S>)", "auto": "r"}],
      pre="broadcast use {rep_node_space, no_item};")
    f("node_terminator", ["C09"], is_("terminator_s(s, i)"))
    f("line_space", ["C07"], is_("line_space_s(s, i)"))
    BRACED = "ensures forall|s: Seq<char>, k: int| within(s, k) && %s ==> %s(#[trigger] d(%s, s, k)) == %s::<S>(s, k)"
    VW = "within(s, i) ==> dv(#[trigger] d(%s, s, i)) == nodes_s::<S>(s, i)"
    u.fn(G, "nodes", "    ensures forall|s: Seq<char>, i: int| " + VW % "ret", props=["C08", "C07", "C09", "C10"],
      closures=[
        {"params": "nodes: P<Vec<SpannedNode<S>>, S>", "ret": "(r: P<Vec<SpannedNode<S>>, S>)",
         "ens": "forall|s: Seq<char>, i: int| within(s, i) && (forall|k: int| i < k <= s.len() ==> dv(#[trigger] d(nodes, s, k)) == nodes_s::<S>(s, k)) ==> dv(#[trigger] d(r, s, i)) == nodes_s::<S>(s, i)"},
        {"params": "t_: (((Option<Spanned<TypeName, S>>, SpannedName<S>), Vec<PropOrArg<S>>), Option<(Option<()>, SpannedChildren<S>)>)", "ret": "(r: Node<S>)",
         "pre": "let (((type_name, node_name), line_items), opt_children) = t_; let ghost items = line_items@; proof { assert(items.take(items.len() as int) =~= items); assert(items.take(0) =~= Seq::empty()); }",
         "ens": """nv(r) == (NodeV { type_name: t_.0.0.0, node_name: t_.0.0.1, arguments: args_of(t_.0.1@), properties: props_of(t_.0.1@),
            children: match t_.1 { Some((None, c)) => Some((c.span, nvs(c.value))), _ => None } })"""},
        {"params": "vec: Vec<NodeItem<S>>", "ret": "(r: Vec<SpannedNode<S>>)", "ens": "r@ == option_map(vec@, kept::<S>())"},
        {"params": "t_: NodeItem<S>", "ret": "(r: Option<SpannedNode<S>>)", "ens": "r == (if t_.0 is None { Some(t_.1) } else { None })", "pre": "let (comment, node) = t_;"},
      ],
      loops=[{"iter": "it", "inv": """invariant it.seq() == items, node.arguments@ == args_of(items.take(it.index())), node.properties@ == props_of(items.take(it.index())),
            node.type_name == t_.0.0.0, node.node_name == t_.0.0.1, node.children == (match t_.1 { Some((None, c)) => Some(c), _ => None }),""",
            "post": "proof { assert(items.take(it.index() + 1).drop_last() =~= items.take(it.index())); }"}],
      lift=[
        {"name": "nodes_braced", "let": "braced_nodes", "params": "nodes: P<Vec<SpannedNode<S>>, S>", "args": "nodes", "ret": "P<Vec<SpannedNode<S>>, S>",
         "contract": BRACED % ("(k < s.len() ==> dv(d(nodes, s, k + 1)) == nodes_s::<S>(s, k + 1))", "dv", "ret", "braced_s"),
         "pre": "broadcast use nodes_in;"},
        {"name": "nodes_children", "arg": r"\.then\((?=\s*node_space\(\)\s*\.repeated_g\(0, None\)\s*\.ignore_then\()", "params": "braced_nodes: P<Vec<SpannedNode<S>>, S>", "args": "braced_nodes", "ret": "P<Option<(Option<()>, SpannedChildren<S>)>, S>",
         "contract": BRACED % ("(forall|m: int| k <= m <= s.len() ==> dv(#[trigger] d(braced_nodes, s, m)) == braced_s::<S>(s, m))", "cv", "ret", "children_s"),
         "pre": "hide(node_space_end); broadcast use {rep_node_space, node_space_end_in, nodes_in};"},
        {"name": "nodes_entries", "arg": r"\.then\((?=\s*node_space\(\)\s*\.repeated_g\(1, None\)\s*\.ignore_then\()", "ret": "P<Vec<PropOrArg<S>>, S>",
         "contract": BRACED % ("true", "seq_of", "ret", "entries_s"),
         "pre": "hide(entry_s); hide(node_space_end); broadcast use {rep_node_space, rep1_node_space, rep_entries, node_space_end_in, entries_in};"},
        {"name": "nodes_node", "let": "node", "params": "braced_nodes: P<Vec<SpannedNode<S>>, S>", "args": "braced_nodes", "ret": "P<Node<S>, S>",
         "contract": BRACED % ("(forall|m: int| k < m <= s.len() ==> dv(#[trigger] d(braced_nodes, s, m)) == braced_s::<S>(s, m))", "ndv", "ret", "node_s"),
         "pre": "hide(type_name_s); hide(ident_s); hide(terminator_s); hide(node_space_end); hide(entries_s); broadcast use {rep_node_space, node_space_end_in, entries_in, children_in, terminator_in, type_name_steps, ident_steps};"},
        {"name": "nodes_list", "after": "node", "params": "node: P<Node<S>, S>", "args": "node", "ret": "P<Vec<SpannedNode<S>>, S>",
         "contract": BRACED % ("(forall|m: int| k <= m <= s.len() ==> ndv(#[trigger] d(node, s, m)) == node_s::<S>(s, m))", "dv", "ret", "nodes_s"),
         "pre": "hide(node_s); hide(node_space_end); hide(line_space_end); broadcast use {rep_node_space, rep_line_space, all_nodes, nvs_vseq, node_space_end_in, line_space_end_in};"},
      ],
      subs=[(re.compile(r"recursive\("), "recursive(Ghost(|s: Seq<char>, i: int, o: Out<Vec<SpannedNode<S>>>| dv(o) == nodes_s::<S>(s, i)), ")])
    u.fn(G, "document", "    ensures forall|s: Seq<char>| ({ let o = #[trigger] d(ret, s, 0); with(o, nvs(o->v.nodes)) == document_s::<S>(s) })", props=["C01", "C08", "C09"],
      closures=[{"params": "nodes: Vec<SpannedNode<S>>", "ret": "(r: Document<S>)", "auto": "r"}])
    u.fn("wrappers.rs", "parse_ast", """    ensures match document_s::<S>(text@) {
        Out::Ok { v, clean: true, .. } => ret is Ok && nvs(ret->Ok_0.nodes) == v,
        _ => ret is Err },""", props=["C01", "C08", "C09"],
      pre="broadcast use nodes_in;", sigsub=[("<S: traits::Span>", "<S>"), (re.compile(r"Result<Document<S>,\s*Error>"), "Result<Document<S>, Error<S>>")],
      subs=[("grammar::", ""), ("S::stream(text)", "text")])
    return u


def separated(m):
    return ".separated_g(%s, %s, %s)" % (m.group(1), "allow_leading" in m.group(2) and "true" or "false", "allow_trailing" in m.group(2) and "true" or "false")
