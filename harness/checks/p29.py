import datetime
from hypothesis import strategies as st
from ..core import Facet, require, require_eq, fail

TECHNIQUE = ("stateful property-based testing (Hypothesis): random index sequences and histories of slice, clear and caller-side edits, run on a Slicer with gurobipy's list, one without it "
             "and one switched over midway, each answer compared with a linear filter of the indices")
NOTE = "Entries: ints, floats, text, None, booleans, dates, nested tuples and frozensets, numbers that are equal across types; NaN, which equals nothing, is left out."
PRIM = [0, 1, 2, 3, -1, 1.0, 0.5, 2.5, "a", "b", "", "1", "**", "x y", "é", None, True, False, datetime.datetime(2020, 1, 1), 10 ** 20, float("inf")]
NEST = [(1, 2), (1,), (), ("a", (1, 2)), ("*", 1), frozenset([1, 2]), frozenset(), (1, 2.0), ("*",)]
kinds = {"int": st.integers(0, 3), "text": st.sampled_from(["a", "b", "c", "aa"]), "prim": st.sampled_from(PRIM), "nest": st.sampled_from(NEST + [1, 2, "a"]), "few": st.sampled_from([1, 1.0, True, "a"])}


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    cols = [draw(st.sampled_from(sorted(kinds))) for _ in range(n)]
    rows = draw(st.lists(st.tuples(*[kinds[c] for c in cols]), max_size=14))
    arg = lambda i: st.one_of(st.just("*"), st.sampled_from([r[i] for r in rows]) if rows else st.just(1), kinds[cols[i]], st.sampled_from(PRIM + NEST))

    @st.composite
    def op(draw):
        k = draw(st.sampled_from(["slice"] * 8 + ["clear", "wrong", "edit", "switch"]))
        if k == "wrong":
            m = draw(st.integers(0, 5).filter(lambda m: m != n))
            return [k, [draw(st.sampled_from(["*", 1, "a"])) for _ in range(m)]]
        return [k, [draw(arg(i)) for i in range(n)] if k in ("slice", "edit") else []]
    return {"rows": rows, "ops": draw(st.lists(op(), min_size=1, max_size=12)), "form": draw(st.sampled_from(["tuples", "lists", "generator", "tuple", "mixed"])),
            "bad": draw(st.sampled_from([None] * 8 + ["star", "ragged", "scalar", "row"]))}


def form(rows, how):
    if how == "lists":
        return [list(r) for r in rows]
    if how == "generator":
        return (iter(r) for r in rows)
    if how == "tuple":
        return tuple(rows)
    if how == "mixed":
        return [list(r) if i % 2 else r for i, r in enumerate(rows)]
    return [tuple(r) for r in rows]


def check(case, ctx):
    import ticdat, ticdat.utils as u
    rows = [tuple(r) for r in case["rows"]]

    def make(rows, how, gurobi):
        gu = u.gu
        if not gurobi:
            u.gu = None
        try:
            return ticdat.Slicer(form(rows, how) if how else rows)
        finally:
            u.gu = gu
    if u.gu is None:
        ctx.label("no gurobipy")
    for gurobi in (True, False):
        if case["bad"] and (rows or case["bad"] == "scalar"):
            arg = {"star": lambda: rows[:1] + [r[:-1] + ("*",) for r in rows[1:]] if len(rows) > 1 and rows[0] else [("*",)], "ragged": lambda: rows + [rows[0] + (1,)], "scalar": lambda: 7, "row": lambda: list(rows) + [5]}[case["bad"]]()
            try:
                make(arg, None, gurobi)
            except u.TicDatError:
                ctx.nontrivial("refused")
                continue
            fail("Slicer(%s) is not refused" % (arg,))
    if case["bad"]:
        return
    slicers = {"with gurobipy": make(rows, case["form"], True), "without": make(rows, case["form"], False), "switched": make(rows, case["form"], True)}
    for i, (k, args) in enumerate(case["ops"]):
        for name, s in slicers.items():
            if k == "clear":
                s.clear()
            elif k == "switch":
                if name == "switched":
                    s._forceguout()
            elif k == "wrong":
                if rows:
                    try:
                        got = s.slice(*args)
                    except u.TicDatError:
                        continue
                    fail("slice%s of %s %s returned %s" % (tuple(args), rows, name, list(got)))
            else:
                star = lambda a: isinstance(a, str) and a == "*"
                want = [r for r in rows if all(star(a) or a == c for a, c in zip(args, r))]
                got = s.slice(*args)
                require(isinstance(got, list) and all(isinstance(r, tuple) for r in got), "slice%s is a %s", tuple(args), type(got))
                require_eq([list(map(lambda x: (type(x).__name__, x), r)) for r in got], [list(map(lambda x: (type(x).__name__, x), r)) for r in want], "slice%s of %s %s, step %d" % (tuple(args), rows, name, i))
                if 0 < len(want) < len(rows):
                    ctx.nontrivial()
                if k == "edit":  # what a caller does to an answer stays there
                    del got[:1]


FACETS = [Facet("histories", check, _case, quick=4000, rule="some slice is a proper part of the indices, or the indices were refused")]
