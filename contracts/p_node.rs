// Nodes: what a document is, on top of p_kdl.rs.
verus! {
// ---- types as the grammar uses them --------------------------------------------
/// std's BTreeMap with keys that compare by their text only: an entry keeps
/// its first key and its last value
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: Vec<(K, V)> }
impl<S> BTreeMap<SpannedName<S>, Value<S>> {
    /// by the text of the name: the span of its first occurrence, the last value
    pub uninterp spec fn view(&self) -> Map<Seq<char>, (S, Value<S>)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, (S, Value<S>)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: SpannedName<S>, v: Value<S>) ensures final(self)@ == put(old(self)@, k, v) { unimplemented!() }
}
pub open spec fn put<S>(m: Map<Seq<char>, (S, Value<S>)>, k: SpannedName<S>, v: Value<S>) -> Map<Seq<char>, (S, Value<S>)> {
    m.insert(k.value@, (if m.contains_key(k.value@) { m[k.value@].0 } else { k.span }, v))
}
pub fn mk_arg<S>(v: Value<S>) -> (r: PropOrArg<S>) ensures r == PropOrArg::Arg(v) { PropOrArg::Arg(v) }

// ---- values, arguments, properties (C08) ---------------------------------------------
pub open spec fn spd<T, S>(o: Out<T>, s: Seq<char>, i: int) -> Out<Spanned<T, S>> { with(o, Spanned { span: spn::<S>(s, i, o->j), value: o->v }) }
pub open spec fn typed_s<S>(s: Seq<char>, i: int) -> Out<Value<S>> {
    let t = spd::<_, S>(type_name_s(s, i), s, i);
    let l = spd::<_, S>(literal_s(s, t->j), s, t->j);
    seq_out(t, l, Value { type_name: Some(t->v), literal: l->v })
}
pub open spec fn plain_s<S>(s: Seq<char>, i: int) -> Out<Value<S>> {
    let l = spd::<_, S>(literal_s(s, i), s, i);
    with(l, Value { type_name: None, literal: l->v })
}
pub open spec fn value_s<S>(s: Seq<char>, i: int) -> Out<Value<S>> { if typed_s::<S>(s, i) is Ok { typed_s(s, i) } else { plain_s(s, i) } }
/// `=` and a value
pub open spec fn assign_s<S>(s: Seq<char>, i: int) -> Out<Value<S>> { if at(s, i, '=') { value_s(s, i + 1) } else { fail() } }
/// what a literal followed by `=` makes a property of
pub open spec fn named_by(l: Literal) -> Option<Box<str>> { match l { Literal::String(t) => Some(t), _ => None } }
pub open spec fn item_s<S>(s: Seq<char>, i: int) -> Out<PropOrArg<S>> {
    let b = spd::<_, S>(bare_s(s, i), s, i);
    let l = spd::<_, S>(literal_s(s, i), s, i);
    let bv = assign_s::<S>(s, b->j);
    let lv = assign_s::<S>(s, l->j);
    if b is Ok && bv is Ok { seq_out(b, bv, PropOrArg::Prop(b->v, bv->v)) }
    else if l is Ok && lv is Ok && named_by(l->v.value) is Some {
        seq_out(l, lv, PropOrArg::Prop(Spanned { span: l->v.span, value: named_by(l->v.value)->0 }, lv->v))
    }
    else if l is Ok && !(lv is Ok) { with(l, PropOrArg::Arg(Value { type_name: None, literal: l->v })) }
    // a bare identifier as an argument: recorded as an error
    else if b is Ok { Out::Ok { v: PropOrArg::Arg(Value { type_name: None, literal: Spanned { span: b->v.span, value: Literal::String(b->v.value) } }), j: b->j, clean: false } }
    else if typed_s::<S>(s, i) is Ok { with(typed_s::<S>(s, i), PropOrArg::Arg(typed_s::<S>(s, i)->v)) }
    else { fail() }
}
pub open spec fn dashed(s: Seq<char>, i: int) -> bool { at(s, i, '/') && at(s, i + 1, '-') }
/// an argument or property, or a slashdash and one that is ignored
pub open spec fn entry_s<S>(s: Seq<char>, i: int) -> Out<PropOrArg<S>> {
    if dashed(s, i) { with(item_s::<S>(s, node_space_end(s, i + 2)), PropOrArg::Ignore) } else { item_s(s, i) }
}

/// no literal starts with a parenthesis or a slash
pub broadcast proof fn no_literal(s: Seq<char>, i: int)
    requires at(s, i, '(') || at(s, i, '/')
    ensures #[trigger] literal_s(s, i) == fail::<Literal>()
{
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    if has(s, i, "null"@) { assert(s.subrange(i, i + 4)[0] == s[i]); }
    if has(s, i, "true"@) { assert(s.subrange(i, i + 4)[0] == s[i]); }
    if has(s, i, "false"@) { assert(s.subrange(i, i + 5)[0] == s[i]); }
}
pub broadcast proof fn no_item<S>(s: Seq<char>, i: int)
    requires at(s, i, '/')
    ensures #[trigger] item_s::<S>(s, i) == fail::<PropOrArg<S>>()
{ no_literal(s, i); }
}
verus! {
// ---- nodes (C08) ---------------------------------------------------------------------
#[verifier::reject_recursive_types(S)]
pub struct NodeV<S> {
    pub type_name: Option<Spanned<TypeName, S>>,
    pub node_name: SpannedName<S>,
    pub arguments: Seq<Value<S>>,
    pub properties: Map<Seq<char>, (S, Value<S>)>,
    /// the span of the braces and the nodes between them, each with its span
    pub children: Option<(S, Seq<(S, NodeV<S>)>)>,
}
pub open spec fn nv<S>(n: Node<S>) -> NodeV<S> decreases n {
    NodeV {
        type_name: n.type_name, node_name: n.node_name, arguments: n.arguments@, properties: n.properties@,
        children: match n.children { Some(c) => Some((c.span, nvs(c.value))), None => None },
    }
}
pub open spec fn nvs<S>(v: Vec<SpannedNode<S>>) -> Seq<(S, NodeV<S>)> decreases v {
    Seq::new(v@.len(), |k: int| if 0 <= k < v@.len() { (v@[k].span, nv(v@[k].value)) } else { arbitrary() })
}
pub open spec fn args_of<S>(q: Seq<PropOrArg<S>>) -> Seq<Value<S>> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { let r = args_of(q.drop_last()); match q.last() { PropOrArg::Arg(v) => r.push(v), _ => r } }
}
pub open spec fn props_of<S>(q: Seq<PropOrArg<S>>) -> Map<Seq<char>, (S, Value<S>)> decreases q.len() {
    if q.len() == 0 { Map::empty() } else { let r = props_of(q.drop_last()); match q.last() { PropOrArg::Prop(k, v) => put(r, k, v), _ => r } }
}
/// arguments and properties, each after at least one space
pub open spec fn entries_s<S>(s: Seq<char>, i: int) -> Out<Seq<PropOrArg<S>>> decreases s.len() - i {
    let k = node_space_end(s, i);
    let e = entry_s::<S>(s, k);
    if k <= i || !(e is Ok) { ok(Seq::empty(), i) }
    else if e->j <= i || e->j > s.len() { Out::Bot }
    else { let t = entries_s::<S>(s, e->j); seq_out(e, t, seq![e->v] + t->v) }
}
pub open spec fn dash_end(s: Seq<char>, i: int) -> int { if dashed(s, i) { node_space_end(s, i + 2) } else { i } }
/// children, or nothing: whether a slashdash precedes, the braces' span, the nodes
pub open spec fn children_s<S>(s: Seq<char>, i: int) -> Out<Option<(bool, S, Seq<(S, NodeV<S>)>)>>
    decreases s.len() - i, 0nat
{
    let m = node_space_end(s, i);
    let n = dash_end(s, m);
    if !within(s, i) || n < i || !at(s, n, '{') { ok(None, i) }
    else {
        let c = nodes_s::<S>(s, n + 1);
        if !(c is Ok) || !at(s, c->j, '}') { ok(None, i) }
        else { Out::Ok { v: Some((dashed(s, m), spn::<S>(s, n, c->j + 1), c->v)), j: c->j + 1, clean: c->Ok_clean } }
    }
}
pub open spec fn node_s<S>(s: Seq<char>, i: int) -> Out<NodeV<S>> decreases s.len() - i, 1nat {
    let t = spd::<_, S>(type_name_s(s, i), s, i);
    let a = if t is Ok { t->j } else { i };
    let n = spd::<_, S>(ident_s(s, a), s, a);
    let e = entries_s::<S>(s, n->j);
    let tc = t is Ok ==> t->Ok_clean;
    if !(n is Ok) { Out::Fail { clean: tc } }
    else if n->j <= i || !(e is Ok) || e->j < n->j || e->j > s.len() { Out::Bot }
    else {
        let c = children_s::<S>(s, e->j);
        let z = terminator_s(s, node_space_end(s, c->j));
        let clean = tc && n->Ok_clean && e->Ok_clean && c->Ok_clean;
        if !(z is Ok) { Out::Fail { clean } }
        else { Out::Ok { v: NodeV {
            type_name: if t is Ok { Some(t->v) } else { None },
            node_name: n->v,
            arguments: args_of(e->v),
            properties: props_of(e->v),
            children: match c->v { Some((false, sp, q)) => Some((sp, q)), _ => None },
        }, j: z->j, clean } }
    }
}
/// as many nodes as there are, with the line space around them; those after a
/// slashdash are left out
pub open spec fn nodes_s<S>(s: Seq<char>, i: int) -> Out<Seq<(S, NodeV<S>)>> decreases s.len() - i, 2nat {
    let k = line_space_end(s, i);
    let a = dash_end(s, k);
    if !within(s, i) || k < i || a < i || a > s.len() { Out::Bot }
    else { match node_s::<S>(s, a) {
        Out::Bot => Out::Bot,
        Out::Fail { clean } => Out::Ok { v: Seq::empty(), j: k, clean },
        Out::Ok { v, j, clean } =>
            if j <= i || j > s.len() { Out::Bot }
            else { let t = nodes_s::<S>(s, j); seq_out(Out::Ok { v, j, clean }, t, (if dashed(s, k) { Seq::empty() } else { seq![(spn::<S>(s, a, j), v)] }) + t->v) },
    } }
}
pub open spec fn document_s<S>(s: Seq<char>) -> Out<Seq<(S, NodeV<S>)>> {
    let t = nodes_s::<S>(s, 0);
    if t is Ok && t->j != s.len() { Out::Fail { clean: t->Ok_clean } } else { t }
}
}
verus! {
// ---- everything read lies in the text, and reading it makes progress (C01) -------------
pub open spec fn steps<O>(o: Out<O>, s: Seq<char>, i: int) -> bool { match o { Out::Bot => false, Out::Fail { .. } => true, Out::Ok { j, .. } => i < j <= s.len() } }
pub broadcast proof fn raw_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] raw_s(s, i), s, i)
{ broadcast use run_in; let q = run(hash_class(), s, i + 1); if at(s, i, 'r') && at(s, q, '"') { raw_end_in(s, q + 1, q - (i + 1)); } }
pub proof fn raw_end_in(s: Seq<char>, k: int, h: int) requires within(s, k) ensures match raw_end(s, k, h) { Some(e) => k <= e && e + 1 + h <= s.len(), None => true }
    decreases s.len() - k
{ if k < s.len() && !raw_close(s, k, h) { raw_end_in(s, k + 1, h); } }
pub proof fn runmax_in(f: spec_fn(char) -> bool, s: Seq<char>, i: int, m: nat) requires within(s, i) ensures i <= runmax(f, s, i, m) <= s.len()
    decreases m
{ if m > 0 && i < s.len() && f(s[i]) { runmax_in(f, s, i + 1, (m - 1) as nat); } }
pub proof fn find_steps(c: Seq<char>, s: Seq<char>, k: int) requires within(s, k) ensures match find(c, s, k) { Some(e) => k <= e < s.len(), None => true }
    decreases s.len() - k
{ if k < s.len() && !c.contains(s[k]) { find_steps(c, s, k + 1); } }
pub broadcast proof fn esc_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] esc_s(s, i), s, i)
{ if i < s.len() { find_steps(stops(), s, i + 1); } if i + 1 < s.len() { runmax_in(hex_class(), s, i + 2, 6); } }
pub broadcast proof fn str_body_in(s: Seq<char>, i: int) requires within(s, i) ensures ({ let b = #[trigger] str_body(s, i); b is Ok && i <= b->j <= s.len() })
    decreases s.len() - i
{ broadcast use esc_steps; if str_item(s, i) is Ok { str_body_in(s, str_item(s, i)->j); } }
pub broadcast proof fn string_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] string_s(s, i), s, i)
{ broadcast use {raw_steps, str_body_in}; }
pub broadcast proof fn keyword_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] keyword_s(s, i), s, i)
{ reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); }
pub broadcast proof fn number_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] number_s(s, i), s, i)
{ broadcast use {run_in, decimal_text}; }
pub broadcast proof fn literal_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] literal_s(s, i), s, i)
{ broadcast use {string_steps, keyword_steps, number_steps}; }
pub broadcast proof fn bare_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] bare_s(s, i), s, i)
{ broadcast use run_in; if i < s.len() && is_id(s[i]) { assert(run(id_class(), s, i) == run(id_class(), s, i + 1)); } }
pub broadcast proof fn ident_steps(s: Seq<char>, i: int) requires within(s, i) ensures ({ let o = #[trigger] ident_s(s, i); steps(o, s, i) && (o is Ok || o == fail::<Box<str>>()) })
{ broadcast use {string_steps, bare_steps, number_steps}; }
pub broadcast proof fn type_name_steps(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] type_name_s(s, i), s, i)
{ broadcast use ident_steps; }
pub broadcast proof fn typed_steps<S>(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] typed_s::<S>(s, i), s, i)
{ broadcast use {type_name_steps, literal_steps}; }
pub broadcast proof fn value_steps<S>(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] value_s::<S>(s, i), s, i)
{ broadcast use {typed_steps, literal_steps}; }
pub broadcast proof fn item_steps<S>(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] item_s::<S>(s, i), s, i)
{ broadcast use {typed_steps, literal_steps, bare_steps, value_steps}; }
pub broadcast proof fn node_space_end_in(s: Seq<char>, i: int) requires within(s, i) ensures i <= #[trigger] node_space_end(s, i) <= s.len()
    decreases s.len() - i
{ if node_space_s(s, i) is Ok && i < node_space_s(s, i)->j <= s.len() { node_space_end_in(s, node_space_s(s, i)->j); } }
pub broadcast proof fn line_space_end_in(s: Seq<char>, i: int) requires within(s, i) ensures i <= #[trigger] line_space_end(s, i) <= s.len()
    decreases s.len() - i
{ if line_space_s(s, i) is Ok && i < line_space_s(s, i)->j <= s.len() { line_space_end_in(s, line_space_s(s, i)->j); } }
pub broadcast proof fn entry_steps<S>(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] entry_s::<S>(s, i), s, i)
{ broadcast use {item_steps, node_space_end_in}; }
pub broadcast proof fn entries_in<S>(s: Seq<char>, i: int) requires within(s, i) ensures ({ let e = #[trigger] entries_s::<S>(s, i); e is Ok && i <= e->j <= s.len() })
    decreases s.len() - i
{ broadcast use {entry_steps, node_space_end_in}; let e = entry_s::<S>(s, node_space_end(s, i)); if node_space_end(s, i) > i && e is Ok { entries_in::<S>(s, e->j); } }
pub broadcast proof fn terminator_in(s: Seq<char>, i: int) requires within(s, i) ensures ({ let z = #[trigger] terminator_s(s, i); z == fail::<()>() || z == ok((), z->j) && i <= z->j <= s.len() })
{ broadcast use line_end_in; }
pub broadcast proof fn children_in<S>(s: Seq<char>, i: int) requires within(s, i) ensures ({ let c = #[trigger] children_s::<S>(s, i); c is Ok && i <= c->j <= s.len() })
    decreases s.len() - i, 0nat
{
    broadcast use node_space_end_in;
    let n = dash_end(s, node_space_end(s, i));
    if at(s, n, '{') { nodes_in::<S>(s, n + 1); }
}
pub broadcast proof fn node_steps<S>(s: Seq<char>, i: int) requires within(s, i) ensures steps(#[trigger] node_s::<S>(s, i), s, i)
    decreases s.len() - i, 1nat
{
    broadcast use {type_name_steps, ident_steps, entries_in, terminator_in, node_space_end_in};
    let t = type_name_s(s, i);
    let n = ident_s(s, if t is Ok { t->j } else { i });
    if n is Ok { children_in::<S>(s, entries_s::<S>(s, n->j)->j); }
}
pub broadcast proof fn nodes_in<S>(s: Seq<char>, i: int) requires within(s, i) ensures ({ let e = #[trigger] nodes_s::<S>(s, i); e is Ok && i <= e->j <= s.len() })
    decreases s.len() - i, 2nat
{
    broadcast use {line_space_end_in, node_space_end_in};
    let a = dash_end(s, line_space_end(s, i));
    node_steps::<S>(s, a);
    let n = node_s::<S>(s, a);
    if n is Ok { nodes_in::<S>(s, n->j); }
}

// ---- repetition of entries and nodes -------------------------------------------------
pub open spec fn spaced_s<S>(s: Seq<char>, i: int) -> Out<PropOrArg<S>> { let k = node_space_end(s, i); if k <= i { fail() } else { entry_s(s, k) } }
pub proof fn rep_entries_<S>(p: P<PropOrArg<S>, S>, s: Seq<char>, i: int, n: nat)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == spaced_s::<S>(s, k)
    ensures reps(p, s, 0, None, i, n) == entries_s::<S>(s, i)
    decreases s.len() - i
{
    broadcast use {entry_steps, node_space_end_in, entries_in};
    assert(d(p, s, i) == spaced_s::<S>(s, i));
    let e = spaced_s::<S>(s, i);
    if e is Ok { rep_entries_(p, s, e->j, n + 1); }
}
pub broadcast proof fn rep_entries<S>(p: P<PropOrArg<S>, S>, s: Seq<char>, i: int)
    requires within(s, i), forall|k: int| within(s, k) ==> #[trigger] d(p, s, k) == spaced_s::<S>(s, k)
    ensures #[trigger] reps(p, s, 0, None, i, 0) == entries_s::<S>(s, i)
{ rep_entries_(p, s, i, 0); }

pub open spec fn dv<S>(o: Out<Vec<SpannedNode<S>>>) -> Out<Seq<(S, NodeV<S>)>> { with(o, nvs(o->v)) }
pub open spec fn braced_s<S>(s: Seq<char>, i: int) -> Out<Seq<(S, NodeV<S>)>> {
    let c = nodes_s::<S>(s, i + 1);
    if !at(s, i, '{') { fail() } else if !at(s, c->j, '}') { Out::Fail { clean: c->Ok_clean } } else { Out::Ok { v: c->v, j: c->j + 1, clean: c->Ok_clean } }
}
pub open spec fn cv<S>(o: Out<Option<(Option<()>, SpannedChildren<S>)>>) -> Out<Option<(bool, S, Seq<(S, NodeV<S>)>)>> {
    with(o, match o->v { Some((c, q)) => Some((c is Some, q.span, nvs(q.value))), None => None })
}
pub open spec fn ndv<S>(o: Out<Node<S>>) -> Out<NodeV<S>> { with(o, nv(o->v)) }
pub type NodeItem<S> = (Option<()>, SpannedNode<S>);
pub open spec fn listed_s<S>(s: Seq<char>, k: int) -> Out<(bool, S, NodeV<S>)> {
    let a = dash_end(s, k); let n = node_s::<S>(s, a);
    with(n, (dashed(s, k), spn::<S>(s, a, n->j), n->v))
}
pub open spec fn iv<S>(o: Out<NodeItem<S>>) -> Out<(bool, S, NodeV<S>)> { with(o, (o->v.0 is Some, o->v.1.span, nv(o->v.1.value))) }
pub open spec fn kept<S>() -> spec_fn(NodeItem<S>) -> Option<SpannedNode<S>> { |t: NodeItem<S>| if t.0 is None { Some(t.1) } else { None } }
pub open spec fn vseq<S>(q: Seq<SpannedNode<S>>) -> Seq<(S, NodeV<S>)> { q.map_values(|n: SpannedNode<S>| (n.span, nv(n.value))) }
pub open spec fn kseq<S>(q: Seq<NodeItem<S>>) -> Seq<(S, NodeV<S>)> { vseq(option_map(q, kept())) }
pub proof fn option_map_cons<A, B>(a: A, q: Seq<A>, g: spec_fn(A) -> Option<B>)
    ensures option_map(seq![a] + q, g) == (match g(a) { Some(b) => seq![b], None => Seq::empty() }) + option_map(q, g)
    decreases q.len()
{
    if q.len() == 0 {
        assert(seq![a] + q =~= seq![a]); assert(seq![a].drop_last() =~= Seq::empty());
        assert(option_map(seq![a].drop_last(), g) =~= Seq::empty());
        assert(option_map(seq![a], g) =~= (match g(a) { Some(b) => seq![b], None => Seq::empty() }) + option_map(q, g));
    } else {
        assert((seq![a] + q).drop_last() =~= seq![a] + q.drop_last());
        option_map_cons(a, q.drop_last(), g);
        assert(option_map(seq![a] + q, g) =~= (match g(a) { Some(b) => seq![b], None => Seq::empty() }) + option_map(q, g));
    }
}
/// nodes_s after its leading line space
pub proof fn seps_nodes<S>(p: P<NodeItem<S>, S>, dl: P<Vec<()>, S>, s: Seq<char>, i: int)
    requires within(s, i),
        forall|k: int| i <= k <= s.len() ==> ({ let o = #[trigger] d(dl, s, k); o == ok(o->v, line_space_end(s, k)) }),
        forall|k: int| i <= k <= s.len() ==> iv(#[trigger] d(p, s, k)) == listed_s::<S>(s, k),
    ensures ({ let o = seps(p, dl, true, s, i); with(o, kseq(o->v)) == nodes_s::<S>(s, i) })
    decreases s.len() - i
{
    broadcast use {node_steps, line_space_end_in, node_space_end_in};
    let k = line_space_end(s, i);
    assert(d(dl, s, i) == ok(d(dl, s, i)->v, k));
    let o = d(p, s, k);
    assert(iv(o) == listed_s::<S>(s, k));
    let a = dash_end(s, k);
    let x = node_s::<S>(s, a);
    assert(steps(x, s, a));
    if x is Ok {
        seps_nodes(p, dl, s, x->j);
        let t = seps(p, dl, true, s, x->j);
        nodes_in::<S>(s, x->j);
        option_map_cons(o->v, t->v, kept::<S>());
        assert(kseq(seq![o->v] + t->v) =~= (if dashed(s, k) { Seq::empty() } else { seq![(spn::<S>(s, a, x->j), x->v)] }) + kseq(t->v));
    } else {
        assert(kseq(Seq::<NodeItem<S>>::empty()) =~= Seq::empty());
    }
}
pub broadcast proof fn all_nodes<S>(p: P<NodeItem<S>, S>, dl: P<Vec<()>, S>, s: Seq<char>, i: int)
    requires within(s, i),
        forall|k: int| i <= k <= s.len() ==> ({ let o = #[trigger] d(dl, s, k); o == ok(o->v, line_space_end(s, k)) }),
        forall|k: int| i <= k <= s.len() ==> iv(#[trigger] d(p, s, k)) == listed_s::<S>(s, k),
    ensures ({ let o = #[trigger] sep_all(p, dl, true, true, s, i); with(o, kseq(o->v)) == nodes_s::<S>(s, i) })
{
    broadcast use {node_steps, line_space_end_in, node_space_end_in};
    let k = line_space_end(s, i);
    assert(d(dl, s, i) == ok(d(dl, s, i)->v, k));
    let o = d(p, s, k);
    assert(iv(o) == listed_s::<S>(s, k));
    let a = dash_end(s, k);
    let x = node_s::<S>(s, a);
    assert(steps(x, s, a));
    if x is Ok {
        seps_nodes(p, dl, s, x->j);
        let t = seps(p, dl, true, s, x->j);
        nodes_in::<S>(s, x->j);
        option_map_cons(o->v, t->v, kept::<S>());
        assert(kseq(seq![o->v] + t->v) =~= (if dashed(s, k) { Seq::empty() } else { seq![(spn::<S>(s, a, x->j), x->v)] }) + kseq(t->v));
    } else {
        assert(kseq(Seq::<NodeItem<S>>::empty()) =~= Seq::empty());
    }
}
pub broadcast proof fn nvs_vseq<S>(v: Vec<SpannedNode<S>>) ensures #[trigger] nvs(v) == vseq(v@) { assert(nvs(v) =~= vseq(v@)); }
}
