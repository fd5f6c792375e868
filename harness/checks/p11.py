from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames
from .p10 import spec_data, failures, native

TECHNIQUE = "reference model: expected cell-by-cell replacement computed naively over random rules, defaults, replacement mappings and data; frame condition on everything else"
NOTE = "Keyed and keyless tables, parameters table, key field replacements for DataFrames, odd indexes, invalid replacements (must raise and change nothing)."
CAND = [0, 1, 2, -1, 0.5, 3, 100, "a", "b", "", "chicken", None, "2019-03-04", "zzz", float("inf")]


def good_for(rule):
    return [v for v in CAND if not (rule[8] and isinstance(v, str) and v not in gen.DATES + gen.NOT_DATES and v != "")
            and gen.rule_ok(rule, v)]


def safe_ok(rule, v):
    if rule[8] and isinstance(v, str) and v not in gen.DATES + gen.NOT_DATES + [""]:
        return False  # the candidates are not dates
    return gen.rule_ok(rule, v)


@st.composite
def _case(draw, pan=False):
    spec, data = draw(spec_data(tuples=False))
    spec["defaults"] = {}
    repl = []
    for t, (pks, dfs) in spec["tables"].items():
        for f in pks + dfs:
            rule = spec["types"].get(t, {}).get(f)
            good = good_for(rule) if rule else [0, "a", None]
            pick = lambda: draw(st.sampled_from(good if good and draw(st.integers(0, 9)) else CAND))
            k = draw(st.integers(0, 3))
            if k == 0 or (f in dfs and k == 1 and rule and not gen.rule_ok(rule, 0)):
                v = pick()
                if v != gen.INF:
                    spec["defaults"].setdefault(t, {})[f] = v
            if (f in dfs or (pan and draw(st.booleans()))) and draw(st.integers(0, 2)) == 0:
                repl.append([t, f, pick()])
    return {"spec": spec, "data": data, "repl": repl,
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans())}


def plan(case, data, pan):
    """({(t, f): value} for what must be replaced, whether a needed replacement is invalid, expected data)"""
    spec, repl = case["spec"], {(t, f): v for t, f, v in case["repl"]}
    bad = failures(spec, data)
    values, invalid = {}, False
    for (t, f), idx in bad.items():
        pks, dfs = spec["tables"][t]
        rule = spec["types"].get(t, {}).get(f)
        dv = spec["defaults"].get(t, {})
        if f in pks:
            if not pan or ((t, f) not in repl and f not in dv):
                continue
            v = repl.get((t, f), dv.get(f))
            ok = safe_ok(rule, v) if rule else not gen.is_null(v)
        else:
            v = repl.get((t, f), dv.get(f, 0))
            ok = safe_ok(rule, v)
        values[t, f] = v
        invalid = invalid or not ok
    want = {t: [list(r) for r in rows] for t, rows in data.items()}
    if not invalid:
        for (t, f), v in values.items():
            j = sum(spec["tables"][t], []).index(f)
            for i in bad[t, f]:
                want[t][i][j] = v
    return values, invalid, want


def run(f, dat, case, ctx):
    from ticdat.utils import TicDatError
    repl = {(t, fld): v for t, fld, v in case["repl"]}
    try:
        res = f.replace_data_type_failures(dat, replacement_values=repl) if repl else f.replace_data_type_failures(dat)
    except TicDatError:
        return True
    require(res is dat, "replace_data_type_failures returned another object")
    return False


def check_td(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    dat = gen.make_td(tdf, spec, data)
    rows = {t: [id(r) for r in (getattr(dat, t).values() if v[0] else getattr(dat, t))] for t, v in spec["tables"].items()}
    values, invalid, want = plan(case, data, False)
    raised = run(tdf, dat, case, ctx)
    require_eq(raised, invalid, "refused the replacement values (needed: %s)" % (values,))
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.td_rows(spec, dat, t)), gen.norm_rows(want[t]),
                   "rows of %s (%s)" % (t, "refused replacement" if raised else "after the replacement"))
        require(rows[t] == [id(r) for r in (getattr(dat, t).values() if spec["tables"][t][0] else getattr(dat, t))],
                "rows of %s were exchanged, not edited in place", t)
    if not raised:
        left = {tuple(k) for k in tdf.find_data_type_failures(dat)}
        require_eq(left, {k for k in failures(spec, want)}, "failures left")
        require(not any(f in spec["tables"][t][1] for t, f in left), "data fields still failing: %s", left)
    finish(ctx, spec, values, raised)


def finish(ctx, spec, values, raised):
    if raised:
        ctx.nontrivial("refused")
    elif values:
        ctx.nontrivial("replaced")
        if any(f in spec["tables"][t][0] for t, f in values):
            ctx.label("key cells replaced")


def check_pd(case, ctx):
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    odd_frames(spec, pdf, dat, case["index"], case["extra"])
    data = {t: [[native(c) for c in r] for r in gen.pd_rows(spec, dat, t)] for t in spec["tables"]}
    before = {t: (list(getattr(dat, t).index), list(getattr(dat, t).columns)) for t in spec["tables"]}
    values, invalid, want = plan(case, data, True)
    raised = run(pdf, dat, case, ctx)
    require_eq(raised, invalid, "refused the replacement values (needed: %s)" % (values,))
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.pd_rows(spec, dat, t)), gen.norm_rows(want[t]),
                   "rows of %s (%s)" % (t, "refused replacement" if raised else "after the replacement"))
        require_eq((list(getattr(dat, t).index), list(getattr(dat, t).columns)), before[t], "index and columns of %s" % t)
    if not raised:
        left = {tuple(k) for k in pdf.find_data_type_failures(dat)}
        require(not any(f in spec["tables"][t][1] for t, f in left), "data fields still failing: %s", left)
        require(not left & set(values), "replaced fields still failing: %s", left)
    finish(ctx, spec, values, raised)


def bad_args():
    return [{"cls": c, "k": k} for c in "TP" for k in (["nope", "x"], ["t", "nope"], ["t", "k"])]


def check_bad_args(case, ctx):
    """replacements for what is not a (data) field are refused, also when nothing needs replacing"""
    from ticdat.utils import TicDatError
    spec = {"tables": {"t": [["k"], ["x"]]}, "types": {"t": {"x": [True, True, False, 0, gen.INF, False, [], False, False]}}}
    f = gen.tdf_of(spec) if case["cls"] == "T" else gen.pdf_of(spec)
    for row in ([1, 2], [1, -2]):
        dat = (gen.make_td if case["cls"] == "T" else gen.make_pd)(f, spec, {"t": [row]})
        try:
            f.replace_data_type_failures(dat, {tuple(case["k"]): 1})
            raised = False
        except TicDatError:
            raised = True
        require_eq(raised, not (case["cls"] == "P" and case["k"] == ["t", "k"]), "refused replacement for %s" % case["k"])
        if raised:
            require_eq((gen.td_rows if case["cls"] == "T" else gen.pd_rows)(spec, dat, "t"), [row], "rows after refusal")
    ctx.nontrivial("bad arguments")


FACETS = [
    Facet("bad_args", check_bad_args, cases=bad_args, rule="every case"),
    Facet("ticdat", check_td, _case, quick=4000, rule="a replacement was needed"),
    Facet("pandat", check_pd, lambda: _case(pan=True), quick=1800, rule="a replacement was needed"),
]
