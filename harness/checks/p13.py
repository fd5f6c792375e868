import datetime
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames
from .p10 import native, rule_cells
from .p11 import good_for

TECHNIQUE = "stateful model of parameter declarations (add, reset, remove, refused defaults), then a reference overlay and rule evaluation on random parameters tables, TicDat and PanDat"
NOTE = "Rules include datetime, enumerated strings and unenforced parameters; names include undeclared and non-string ones; other tables and predicates are present."
NAMES = ["Size", "tol", "Mode", "p q", "limit", "é"]
CHECK = "Good Name/Value Check"


@st.composite
def value_for(draw, rule, p):
    good = good_for(rule) if rule else [0, "a", None]
    if good and draw(st.integers(0, p)):
        return draw(st.sampled_from(good))
    return draw(draw(rule_cells(rule)).filter(lambda x: not isinstance(x, tuple)))


@st.composite
def _case(draw):
    k, v = draw(gen.fields(2, 2))
    spec = {"tables": {"parameters": [[k], [v]]}}
    if draw(st.booleans()):
        spec["tables"]["foods"] = [["name"], ["qty"]]
    ops, rules = [], {}
    for _ in range(draw(st.integers(1, 6))):
        name = draw(st.sampled_from(NAMES))
        kind = draw(st.integers(0, 6))
        if kind == 0:
            ops.append(["remove", name])
        elif kind == 1:
            ops.append(["add", name, None, draw(st.sampled_from([1, "x", None, 2.5, True]))])
        else:
            rule = draw(gen.type_rule())
            rules[name] = rule
            ops.append(["add", name, rule, draw(value_for(rule, 5))])
    rows = []
    tidy = draw(st.sampled_from([1, 4, 30]))
    for name in draw(st.lists(st.sampled_from(NAMES if tidy == 30 else NAMES + NAMES + ["size", "unknown", 7, ""]), unique=True, max_size=6)):
        rule = rules.get(name) or (draw(gen.type_rule()) if draw(st.booleans()) else None)
        val = draw(value_for(rule, tidy))
        rows.append([name, val])
    ever_date = {op[1] for op in ops if op[0] == "add" and op[2] and op[2][8]}
    for r in rows:  # text that only some date parser could judge is not generated
        if r[0] in ever_date and isinstance(r[1], str) and r[1] not in gen.DATES + gen.NOT_DATES + [""]:
            r[1] = "zzz"
    preds = draw(st.lists(st.sampled_from([CHECK, CHECK + "_0", CHECK + "_1", None, "other"]), unique=True, max_size=3))
    return {"spec": spec, "ops": ops, "rows": rows, "preds": preds, "foods": draw(st.integers(0, 2)),
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans()),
            "clone": draw(st.booleans())}


def declare(f, case, ctx):
    from ticdat.utils import TicDatError
    params = {}
    for op in case["ops"]:
        name = op[1]
        try:
            if op[0] == "remove":
                f.remove_parameter(name)
            elif op[2] is None:
                f.add_parameter(name, op[3], enforce_type_rules=False)
            else:
                f.add_parameter(name, op[3], *op[2])
            raised = False
        except TicDatError:
            raised = True
        if op[0] == "remove":
            require_eq(raised, name not in params, "remove_parameter(%r) refused" % name)
            params.pop(name, None)
        else:
            ok = op[2] is None or gen.rule_ok(op[2], op[3])
            require_eq(raised, not ok, "add_parameter(%r) with default %r refused" % (name, op[3]))
            if not ok:
                ctx.label("default refused")
            if ok:
                params[name] = op[2:]
        require_eq(set(f.parameters), set(params), "declared parameters after %s" % (op[:2],))
    return params


def same_value(got, want, what):
    require(gen.norm(native(got)) == gen.norm(want), "%s: got %r, expected %r", what, got, want)


def run(case, ctx, cls):
    spec = case["spec"]
    f = gen.tdf_of(spec) if cls == "T" else gen.pdf_of(spec)
    params = declare(f, case, ctx)
    for name, (rule, dv) in params.items():
        same_value(f.parameters[name].default_value, dv, "declared default of %s" % name)
        td = f.parameters[name].type_dictionary
        require_eq(td is None, rule is None, "%s has a type dictionary" % name)
    hits = []
    for p in case["preds"]:
        f.add_data_row_predicate("parameters", lambda row: hits.append(row) or True, predicate_name=p)
    if case["clone"]:
        f = f.clone()
    rows = case["rows"]
    data = {"parameters": rows}
    if "foods" in spec["tables"]:
        data["foods"] = [[str(i), i] for i in range(case["foods"])]
    if cls == "T":
        dat = gen.make_td(f, spec, data)
    else:
        dat = gen.make_pd(f, spec, data)
        odd_frames(spec, f, dat, case["index"], case["extra"])
        rows = [[native(c) for c in r] for r in gen.pd_rows(spec, dat, "parameters")]
    if params:
        full = f.create_full_parameters_dict(dat)
        actual = dict(map(tuple, rows))
        require_eq(set(full), set(params) | set(actual), "names in the full parameters dictionary")
        for name in full:
            if name in actual:
                same_value(full[name], actual[name], "full parameters, set %r" % (name,))
            else:
                rule, dv = params[name]
                if rule and rule[8] and isinstance(dv, str):
                    got = full[name]
                    require(isinstance(got, datetime.datetime) and got == datetime.datetime.fromisoformat(dv),
                            "default of datetime parameter %s: got %r, expected the datetime of %r", name, got, dv)
                else:
                    same_value(full[name], dv, "full parameters, default of %s" % name)
    else:
        from ticdat.utils import TicDatError
        try:
            f.create_full_parameters_dict(dat)
            fail("create_full_parameters_dict without declared parameters was not refused")
        except TicDatError:
            pass
    # failures
    bad = []
    if params:
        for i, (name, val) in enumerate(rows):
            if name not in params or (params[name][0] is not None and not gen.rule_ok(params[name][0], val)):
                bad.append(i)
    preds = [0 if p is None else p for p in case["preds"]]
    check_name = next(n for n in [CHECK] + ["%s_%s" % (CHECK, i) for i in range(9)] if n not in preds)
    hits.clear()
    res = f.find_data_row_failures(dat)
    require_eq(len(hits), len(rows) * len(preds), "calls of the other parameters predicates")
    require_eq([tuple(k) for k in res], [("parameters", check_name)] if bad else [], "row failures reported")
    if bad:
        [v] = res.values()
        with interpreting("failures of the parameters check"):
            got = set(v) if cls == "T" else set(v[spec["tables"]["parameters"][0][0]])
        require_eq(got, {rows[i][0] for i in bad}, "parameters failing the name/value check")
    require_eq([k for k in f.find_data_type_failures(dat)], [], "data type failures for the parameters")
    require_eq([k for k in f.find_foreign_key_failures(dat)], [], "foreign key failures for the parameters")
    if cls == "P":
        require_eq(list(f.find_duplicates(dat)), [], "duplicates in the parameters")
    if params and rows:
        ctx.nontrivial("failures" if bad else "clean")
        if any(n in params for n, _ in rows) and any(n not in dict(map(tuple, rows)) for n in params):
            ctx.label("some set, some default")


FACETS = [
    Facet("ticdat", lambda c, x: run(c, x, "T"), _case, quick=5000, rule="parameters are declared and some are set"),
    Facet("pandat", lambda c, x: run(c, x, "P"), _case, quick=2500, rule="parameters are declared and some are set"),
]
