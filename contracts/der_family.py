"""The declarations whose derived decoders are verified.  A, B, C: any field
types; P, Q: any types that can be flattened; Col: any collection."""


def declare(g):
    struct, enum, newtype, scalar, f, arg = (
        g[k] for k in ("struct", "enum", "newtype", "scalar", "f", "arg"))
    # ---- arguments
    struct("A1", f("a", "arg", "A"), f("b", "arg", "Option<B>"))
    struct("A2", f("a", "arg", "A"), f("b", "arg", "Option<B>"),
           f("rest", "args", "Vec<C>"))
    struct("A3", f("a", "arg", "A", default=True),
           f("b", "arg", "A", default="g"),
           f("c", "arg", "Option<B>", default="g"),
           f("d", "arg", "Option<C>", default=True))
    struct("A4", f("a", "arg", "A", mode="str"),
           f("b", "arg", "Option<B>", mode="str"),
           f("c", "arg", "B", mode="bytes"),
           f("d", "arg", "Option<C>", mode="bytes"), props="C15,C16")
    struct("A5", f("a", "arg", "A", mode="bytes"),
           f("rest", "args", "Col<B>", mode="bytes"), props="C15,C16")
    struct("A6", f("rest", "args", "Col<A>", mode="str"))
    struct("A7", f("a", "arg", "A", mode="str", default="g"),
           f("b", "arg", "Option<B>", mode="str", default="g"),
           f("c", "arg", "C", mode="bytes", default=True), props="C15,C16")
    struct("A8", f("a", "arg", "A"), f("b", "arg", "Option<B>"),
           f("c", "args", "Vec<A>"), kind="tuple")
    struct("A9", f("a", "arg", "Option<A>"), f("b", "arg", "B"),
           f("c", "arg", "A"), kind="tuple")
    # ---- properties
    struct("B1", f("name", "prop", "A"), f("count", "prop", "Option<B>"),
           f("long_name", "prop", "C", default=True))
    struct("B2", f("a", "prop", "A", name="b"), f("b", "prop", "B", name="a"))
    struct("B3", f("x", "prop", "A", default="g"),
           f("y", "prop", "Option<A>", default="g"),
           f("z", "prop", "Option<B>", default=True))
    struct("B4", f("known", "prop", "Option<A>"),
           f("rest", "props", "Col<(A, B)>"))
    struct("B5", f("a", "arg", "A"), f("p", "prop", "B"),
           f("rest", "props", "Vec<(A, B)>"))
    struct("B6", f("s", "prop", "A", mode="str"),
           f("t", "prop", "Option<A>", mode="str"),
           f("u", "prop", "B", mode="bytes"),
           f("v", "prop", "Option<C>", mode="bytes"), props="C15,C16")
    struct("B7", f("a", "arg", "A"), f("p", "prop", "A", name="the prop"),
           f("q", "prop", "Option<B>", name=""), kind="tuple")
    struct("B8", f("s", "prop", "Option<A>", mode="str", default="g"),
           f("t", "prop", "A", mode="str", default="g"),
           f("rest", "props", "Col<(B, C)>", mode="str"))
    struct("B9", f("rest", "props", "Col<(B, C)>", mode="bytes"),
           props="C15,C16")
    # ---- children
    struct("C1", f("one", "child", "A"), f("two", "child", "Option<B>"),
           f("flag", "child", "bool"), props="C17")
    struct("C2", f("items", "multi", "Vec<A>", name="item"),
           f("rest", "children", "Vec<B>"), props="C17")
    struct("C3", f("all", "children", "Col<A>"), props="C17")
    struct("C4", f("a", "multi", "Option<Vec<A>>", name="a"),
           f("b", "multi", "Vec<B>", name="b-b", default="g"),
           f("c", "child", "C", default="g"),
           f("d", "child", "A", default=True), props="C17")
    struct("C5", f("x", "child", "A", unwrap=arg()),
           f("y", "child", "Option<B>", unwrap=arg()),
           f("z", "child", "Vec<A>", unwrap=f("", "args", None)),
           f("w", "child", "Option<A>", unwrap=f("", "prop", None, name="k")),
           props="C17")
    struct("C6", f("x", "multi", "Vec<A>", name="v", unwrap=arg()),
           f("m", "child", "Col<(A, B)>", unwrap=f("", "props", None)),
           f("n", "child", "Option<Vec<A>>", unwrap=f("", "children", None)),
           props="C17")
    struct("C7", f("s", "child", "A", unwrap=arg(mode="str")),
           f("d", "child", "A", unwrap=arg(default="g")),
           f("l", "child", "Vec<A>", unwrap=f("", "multi", None, name="q")),
           f("others", "children", "Vec<B>", unwrap=arg()), props="C17")
    struct("C8", f("n", "child", "Vec<A>",
                   unwrap=f("", "multi", None, name="x", unwrap=arg())),
           f("b", "child", "B", unwrap=f("", "child", None)), props="C17")
    struct("C9", f("arg", "arg", "A"), f("prop", "prop", "Option<B>"),
           f("sub", "child", "Option<C1>"),
           f("subs", "multi", "Vec<C2>", name="sub-list"),
           f("on", "child", "bool"), f("off", "child", "bool"), props="C17")
    struct("C10", f("d", "child", "A", unwrap=arg(), default="g"),
           f("m", "multi", "Vec<A>", name="m", unwrap=arg(), default="g"),
           f("o", "multi", "Option<Col<A>>", name="o", unwrap=arg(),
             default="g"), props="C17")
    struct("C11", f("x", "multi", "Option<Vec<A>>", name="x", unwrap=arg()),
           props="C17,C18")
    struct("C12", f("fst", "multi", "Col<B>", name="p"),
           f("f", "child", "bool"), f("snd", "child", "Option<A>"),
           f("rest", "children", "Col<Vec<C>>", unwrap=f("", "args", None)),
           props="C17")
    struct("C13", f("one", "multi", "Vec<B>", name="o"),
           f("m", "multi", "Option<Vec<A>>", name="m"), kind="tuple",
           props="C17")
    # ---- flattened
    struct("F0", f("a", "prop", "Option<A>"), f("b", "prop", "Option<B>"),
           props="C18", default=True)
    struct("F1", f("c", "child", "Option<A>"), f("d", "child", "bool"),
           f("u", "child", "Option<B>", unwrap=arg()), props="C18",
           default=True)
    struct("F2", f("x", "prop", "Option<A>"), f("y", "child", "Option<B>"),
           f("z", "child", "bool"), props="C18", default=True)
    struct("F3", f("x", "prop", "Option<A>"),
           f("inner", "flatten", "F0", p=True), f("z", "prop", "Option<B>"),
           props="C18", default=True)
    struct("F4", f("k", "child", "bool"), f("inner", "flatten", "F1", c=True),
           f("l", "child", "Option<A>"), props="C18", default=True)
    struct("F5", f("both", "flatten", "P", c=True, p=True),
           f("w", "prop", "Option<A>", mode="str"), props="C18",
           default=True)
    struct("F6", f("l", "multi", "Option<Vec<A>>", name="x"),
           f("s", "prop", "Option<B>", mode="str"),
           f("b", "prop", "Option<B>", mode="bytes"), props="C18",
           default=True)
    struct("F7", f("a", "prop", "Option<A>", name="a"),
           f("c", "multi", "Option<Vec<B>>", name="c"),
           f("p", "flatten", "P", c=True, p=True), kind="tuple", props="C18",
           default=True)
    struct("G0", f("own", "prop", "A"), f("f", "flatten", "P", p=True),
           f("last", "prop", "Option<B>"), props="C18")
    struct("G1", f("f", "flatten", "P", c=True), f("own", "child", "A"),
           props="C18")
    struct("G2", f("arg", "arg", "A"), f("f", "flatten", "P", c=True, p=True),
           f("own", "child", "Option<A>"), f("p", "prop", "B"), props="C18")
    struct("G3", f("f", "flatten", "P", p=True),
           f("rest", "props", "Col<(A, B)>"), props="C18")
    struct("G4", f("f", "flatten", "P", c=True),
           f("rest", "children", "Vec<B>"), props="C18")
    struct("G5", f("a", "prop", "A"), f("f", "flatten", "P", p=True),
           f("g", "flatten", "Q", p=True), props="C18")
    struct("G6", f("d", "child", "bool"), f("f", "flatten", "P", c=True),
           f("g", "flatten", "Q", c=True), f("c", "child", "Option<B>"),
           props="C18")
    struct("G7", f("f", "flatten", "F5", c=True, p=True),
           f("m", "multi", "Vec<A>", name="y"), props="C18")
    struct("G8", f("a", "prop", "A", name="p"),
           f("f", "flatten", "P", p=True), f("g", "flatten", "Q", c=True),
           kind="tuple", props="C18")
    # ---- specials
    struct("S1", f("n", "node_name", "A"), f("t", "type_name", "Option<B>"),
           f("a", "arg", "Option<C>"), props="C16,C13")
    struct("S2", f("t", "type_name", "A"), f("n", "node_name", "B"),
           f("a", "prop", "Option<A>"), f("x", None, "C"), props="C16,C13")
    struct("S3", f("n", "node_name", "A"), f("c", "child", "Option<S1>"),
           props="C16,C17")
    struct("S4", f("x", None, "C"), f("a", "arg", "A"),
           f("y", None, "B"), f("b", "arg", "B"), kind="tuple", props="C16")
    struct("S5", f("s", "span", "A"), f("a", "arg", "A"),
           f("c", "multi", "Vec<S6>", name="c"), f("n", "node_name", "B"),
           props="C16,C20")
    struct("S6", f("s", "span", "A"), f("t", "type_name", "Option<A>"),
           f("v", "arg", "B"), props="C16,C20")
    # ---- enums, wrappers, structures without fields
    struct("U0", kind="unit", props="C19")
    struct("U1", props="C19")
    enum("E1", ("Alpha",), ("BetaGamma", "A"), ("OptNode", "Option<B>"),
         ("Tup", [f("a", "arg", "A"), f("b", "prop", "Option<B>", name="b")]))
    enum("E2", ("HTTPServer", "A"), ("X",), ("Hidden", None))
    enum("E3", ("Nest", "C1"), ("Type", "U0"), ("A", "E2"),
         ("List", [f("r", "args", "Vec<A>"),
                   f("p", "props", "Col<(A, B)>")]))
    enum("E4", ("V", [f("x", "arg", "A"), f("c", "children", "Vec<B>")]),
         ("W", [f("x", "multi", "Vec<A>", name="k", unwrap=arg()),
                f("y", None, "B")]),
         ("U", "Option<C>"), props="C19,C17")
    enum("E5", ("Only",))
    enum("E6", ("One",), ("Two",))
    newtype("N1", "A")
    newtype("N2", "Option<B>")
    newtype("N3", "E1")
    scalar("T1", "Only")
    scalar("T2", "First", "SecondOne", "HTTPServer")
