import sys
from hypothesis import strategies as st
from .. import ampl, gen
if "ticdat" not in sys.modules:
    ampl.install()
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = ("property-based testing (Hypothesis) of the AMPL bridge against a stand-in for amplpy that records what it is given; "
             "copies compared with the source rows, solution variables with a model of the filtered, merged table")
NOTE = ("amplpy is not installed here, so what is decided is the library's half: the frames it builds, the calls it makes and what it does with variable values. "
        "Keyed, keyless and empty tables, renamed, omitted and excluded fields and tables, extra DataFrame columns, custom filters, several variables per table, key-only variables.")
FILTERS = {"default": lambda x: x != 0, "positive": lambda x: x > 0, "all": lambda x: True, "none": lambda x: False, "below": lambda x: x < 2}


@st.composite
def _out_case(draw):
    tabs = draw(gen.tables(1, 4))
    spec = {"tables": tabs, "fks": []}
    kinds = {(t, f): draw(st.sampled_from(["str", "num", "int"])) for t, v in tabs.items() for f in v[0] + v[1]}
    cells = {"str": st.sampled_from(["a", "b", "c d", "", "1"]), "num": st.sampled_from([0, 1.5, -2, 3, gen.INF]), "int": st.integers(0, 5)}
    data = draw(gen.data_for(spec, lambda t, f: cells[kinds[t, f]], 0, 5))
    excluded = draw(st.lists(st.sampled_from(sorted(tabs)), unique=True, max_size=2))
    extras = {t: draw(st.sampled_from([[], [], ["extra one"], ["extra one", "zz"]])) for t in tabs}
    ren = []
    for t, v in tabs.items():
        if t in excluded or not v[0]:
            continue
        for f in v[0] + v[1] + extras[t]:
            k = draw(st.integers(0, 4))
            if k == 0:
                ren.append([t, f, "new " + f])
            elif k == 1 and f not in v[0]:
                ren.append([t, f, draw(st.sampled_from(["", None, False]))])
        fs = [f for f in v[0] + v[1] if not any(r[:2] == [t, f] for r in ren)]
        if len(fs) > 1 and draw(st.integers(0, 3)) == 0:   # swap two names
            ren += [[t, fs[0], fs[1]], [t, fs[1], fs[0]]]
    live = [t for t in tabs if t not in excluded and tabs[t][0]]
    return {"spec": spec, "data": data, "excluded": excluded, "extras": extras, "ren": ren,
            "sets": {t: "SET_" + t for t in live if draw(st.booleans())}, "refuse": draw(st.integers(0, 4)) == 0,
            "index": draw(st.sampled_from(["range", "reversed", "same"])),
            "generic": draw(st.sampled_from([None, None, None, [[], []], [["c"], []], [["c", "d"], [[1, "x"], [2, "y"]]]]))}


def with_generic(spec, generic):
    return dict(spec, tables=dict(spec["tables"], gen_t="*")) if generic else spec


def put_generic(dat, generic):
    import pandas as pd
    if generic:
        dat.gen_t = pd.DataFrame(generic[1], columns=generic[0])


def frames(spec, dat, tables):
    out = {}
    with interpreting("the AMPL copy"):
        require_eq({a for a in dir(dat) if not a.startswith("_")}, set(tables), "tables of the AMPL copy")
        for t in tables:
            f = getattr(dat, t)
            require(isinstance(f, ampl.DataFrame), "%s is no AMPL frame", t)
            out[t] = (f.index, {c: [gen.norm(x) for x in v] for c, v in f.columns.items()})
    return out


def check_out(case, ctx):
    import ticdat
    spec, data = case["spec"], case["data"]
    ren = {(t, f): n for t, f, n in case["ren"]}
    live = [t for t, v in spec["tables"].items() if v[0] and t not in case["excluded"]]
    for pandat in (False, True):
        extras = case["extras"] if pandat else {t: [] for t in spec["tables"]}
        use = {k: v for k, v in ren.items() if k[1] in spec["tables"][k[0]][0] + spec["tables"][k[0]][1] + extras[k[0]]}
        want = {}
        rows_in = {}
        if pandat:
            fac = gen.pdf_of(with_generic(spec, case.get("generic")))
            dat = gen.make_pd(fac, spec, data)
            for t in spec["tables"]:
                df = getattr(dat, t)
                for e in extras[t]:
                    df[e] = ["%s %s" % (e, i) for i in range(len(df))]
                n = len(df)
                df.index = {"range": list(range(n)), "reversed": list(range(n))[::-1], "same": [3] * n}[case["index"]]
        else:
            fac = gen.tdf_of(with_generic(spec, case.get("generic")))
            dat = gen.make_td(fac, spec, data)
        put_generic(dat, case.get("generic"))
        for t in live:
            pks, dfs = spec["tables"][t]
            cols = dict(zip(pks + dfs, zip(*data[t]))) if data[t] else {f: () for f in pks + dfs}
            cols.update({e: ["%s %s" % (e, i) for i in range(len(data[t]))] for e in extras[t]})
            keep = pks + dfs + [e for e in extras[t] if (t, e) in use]
            want[t] = (tuple(use.get((t, f), f) for f in pks),
                       {use.get((t, f), f): [gen.norm(x) for x in cols[f]] for f in keep if use.get((t, f), f)})
        args = {}
        if use:
            args["field_renamings"] = dict(use)
        if case["excluded"]:
            args["excluded_tables"] = list(case["excluded"])
        before = gen.pd_content(spec, dat) if pandat else gen.td_content(spec, dat)
        copy = fac.copy_to_ampl(dat, **args)
        require_eq(frames(spec, copy, live), want, "%s.copy_to_ampl" % type(fac).__name__)
        require(not gen.diff_content(before, gen.pd_content(spec, dat) if pandat else gen.td_content(spec, dat)), "copy_to_ampl changed its argument")
        a = ampl.AMPL()
        fac.set_ampl_data(copy, a, dict(case["sets"]) or None)
        got = sorted(([next(t for t in live if getattr(copy, t) is d), s] for d, s in a.calls), key=str)
        require_eq(got, sorted(([t, case["sets"].get(t)] for t in live), key=str), "the calls of setData")
        if case["refuse"] and case["sets"]:
            try:
                fac.set_ampl_data(copy, ampl.AMPL(refuse=set(case["sets"].values())), case["sets"])
            except ticdat.utils.TicDatError:
                ctx.label("refused by AMPL")
            else:
                fail("set_ampl_data hid a failure of setData")
        for bad in ({("no such", "f"): "x"}, {(live[0], spec["tables"][live[0]][0][0]): ""} if live else {"x": "y"},
                    {(live[0], "no such field"): "x"} if live else {"x": "y"}):
            try:
                fac.copy_to_ampl(dat, field_renamings=bad)
            except ticdat.utils.TicDatError:
                pass
            else:
                fail("copy_to_ampl accepted the renamings %s" % bad)
    if ren and any(data[t] for t in live):
        ctx.nontrivial("renamed")
    elif any(data[t] for t in live):
        ctx.nontrivial("copied")
    if case["excluded"]:
        ctx.label("excluded tables")
    if case.get("generic"):
        ctx.label("generic table left out")


@st.composite
def _in_case(draw):
    tabs = draw(gen.tables(1, 3))
    spec = {"tables": tabs, "fks": [], "defaults": {}}
    for t, v in tabs.items():
        for f in v[1]:
            if draw(st.integers(0, 3)) == 0:
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([7, "d", None]))
    variables = []
    for t, (pks, dfs) in tabs.items():
        if not pks:
            continue
        kinds = [draw(st.sampled_from(["str", "num", "mixed"])) for _ in pks]
        key = st.tuples(*[{"str": st.sampled_from("abc"), "num": st.sampled_from([1.0, 2.0, 3.0]), "mixed": st.sampled_from(["a", 1.0, "1"])}[k] for k in kinds])
        for f in draw(st.lists(st.sampled_from(dfs + [None]), unique=True, max_size=3)):
            keys = draw(st.lists(key, unique=True, max_size=6))
            variables.append([t, f if f else draw(st.sampled_from(["", None, False])),
                              [[list(k), draw(st.sampled_from([0.0, 0.0, 1.0, -1.0, 2.5, 100.0, 1e-9]))] for k in keys],
                              draw(st.sampled_from(["default", "default", "positive", "all", "none", "below"])), draw(st.booleans())])
    variables = draw(st.permutations(variables))
    return {"spec": spec, "vars": variables, "generic": draw(st.integers(0, 3)) == 0}


def check_in(case, ctx):
    spec = case["spec"]
    want = {t: {} for t in spec["tables"]}
    dropped = merged = 0
    for t, f, entries, flt, _ in case["vars"]:
        for k, v in entries:
            if FILTERS[flt](v):
                key = tuple(gen.norm(x) for x in k)
                merged += key in want[t]
                row = want[t].setdefault(key, {})
                if f:
                    row[f] = gen.norm(v)
            else:
                dropped += 1
    full = {}
    for t, (pks, dfs) in spec["tables"].items():
        d = spec["defaults"].get(t, {})
        full[t] = {k: tuple(r.get(f, gen.norm(d.get(f, 0))) for f in dfs) for k, r in want[t].items()} if pks else {}
    for pandat in (False, True):
        full_spec = with_generic(spec, case.get("generic"))
        fac = gen.pdf_of(full_spec) if pandat else gen.tdf_of(full_spec)
        arg = {}
        for i, (t, f, entries, flt, listed) in enumerate(case["vars"]):
            n = len(spec["tables"][t][0])
            var = ampl.Variable("V%s" % i, n, [((tuple(k) if n > 1 else k[0]), v) for k, v in entries])
            fn = FILTERS[flt]
            arg[t, f] = var if flt == "default" and listed else ([var, fn] if listed else (var, fn))
        got = fac.copy_from_ampl_variables(arg)
        with interpreting("the solution"):
            ok = (fac.good_pan_dat_object if pandat else fac.good_tic_dat_object)(got)
            require(ok, "copy_from_ampl_variables returned no good object")
            require(not case.get("generic") or len(got.gen_t) == 0, "rows in a generic table no variable fills")
            content = gen.pd_content(spec, got) if pandat else gen.td_content(spec, got)
            for t, (pks, dfs) in spec["tables"].items():
                require(len(content[t]) == len(full[t]), "%s rows of %s, expected %s", len(content[t]), t, len(full[t]))
                if pks:
                    require_eq(gen.keyed(spec, t, content[t]), full[t], "%s: rows of %s" % (type(fac).__name__, t))
    if merged:
        ctx.nontrivial("variables merged")
    elif dropped and any(full.values()):
        ctx.nontrivial("filtered")
    elif any(full.values()):
        ctx.nontrivial("all rows")
    if any(not f for _, f, *_ in case["vars"]):
        ctx.label("key only")


FACETS = [Facet("to_ampl", check_out, _out_case, quick=1200, rule="some row is copied"),
          Facet("from_ampl", check_in, _in_case, quick=1200, rule="some row passes a filter")]
