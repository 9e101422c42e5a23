"""Which units, functions and bounded searches decide each property."""
T = "contract-based deductive verification (Verus) of the functions extracted from /repo, with a bounded search of the real crate for failing inputs"
TB = "bounded stand-in: differential search of the real crate against a reference; contracts not yet within reach"
PLAN = {}


def p(id, units=(), bin="syn", level=None, note="", technique=None, **k):
    PLAN[id] = dict(units=list(units), bins=bin.split(","),
                    level=level or ("proof" if units else "exploration"),
                    note=note or "see DESIGN.md",
                    technique=technique or (T if units else TB), **k)


p("C10", ["span", "gram"])
p("C11", ["span", "dec"])
p("C01", ["span", "gram"], level="other")
p("C12", ["span"], level="other")
for k in ("C03", "C04", "C06", "C08", "C09"):
    p(k, ["gram"])
p("C07", ["gram"], level="other")
p("C15", ["dec", "gram", "der"], bin="dec,der", compile=True)
for k in ("C02", "C05", "C14", "C21", "C22"):
    p(k, ["dec"], bin="dec", compile=True)
p("C20", ["dec", "der"], bin="dec,der", compile=True)
p("C13", ["dec", "gram", "der"], bin="dec,der", compile=True, level="other")
p("C23", ["dec", "der"], bin="dec,der", compile=True, level="other")
p("C24", ["dec"], bin="dec", compile=True, level="other")
for k in ("C16", "C17", "C18", "C19"):
    p(k, ["dec", "der"], bin="der", compile=True, level="other")
NA = {}
for i in range(1, 25):
    NA["C%02d" % i] = "check under construction"
