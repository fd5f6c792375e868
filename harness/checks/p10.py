import datetime, itertools
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames

TECHNIQUE = ("reference model: naive evaluation of the documented rule on every cell, over a fully enumerated lattice of rules and values "
             "and over random schemas and data, TicDat and PanDat")
NOTE = "Cells: ints, floats at and around the bounds, infinities, NaN, None, booleans, strings, dates and date text, tuples. Text that some date parser might accept is limited to clear cases."
INF = gen.INF
DT = [datetime.datetime(2020, 1, 2), datetime.datetime(2021, 5, 6, 7, 8, 9)]

VALUES = [-INF, -2, -1, -0.5, -0.0, 0, 1e-9, 0.5, 1, 1.5, 2, 2.0, 3, INF, None, float("nan"), True, False, "", "a", " a", "a ", "A", "b", "1",
          "inf", DT[0]]
BOUNDS = [-INF, -1, 0, 0.5, 2, INF]
STRS = [[], "*", ["a", "1"]]


def lattice():
    out = []
    for lo, hi in itertools.combinations_with_replacement(BOUNDS, 2):
        for imin, imax, isint, nul in itertools.product([True, False], repeat=4):
            out.append([True, imin, imax, lo, hi, isint, STRS[len(out) % 3], nul, False])
    for strs in STRS:
        for nul in (True, False):
            out.append([False, False, False, 3, 4, True, strs, nul, False])
    for number, nul in itertools.product([True, False], repeat=2):
        for strs in STRS:
            out.append([number, True, False, 0, INF, number, strs, nul, True])
    return [{"rules": out[i:i + 12]} for i in range(0, len(out), 12)]


def check_lattice(case, ctx):
    """every value against every rule; one data field per rule, one row per value"""
    rules = case["rules"]
    fs = ["f%s" % i for i in range(len(rules))]
    dated = any(r[8] for r in rules)
    vals = [v for v in VALUES if not (dated and isinstance(v, str) and v.strip().lower() in ("1", "a", "b", "inf"))]
    if dated:
        vals += gen.DATES + gen.NOT_DATES
    spec = {"tables": {"t": [["k"], fs]}, "types": {"t": {f: r for f, r in zip(fs, rules)}}}
    data = {"t": [[i] + [v] * len(fs) for i, v in enumerate(vals)]}
    want = {}
    for f, r in zip(fs, rules):
        bad = [i for i, v in enumerate(vals) if not gen.rule_ok(r, v)]
        if bad:
            want["t", f] = set(bad)
    tdf = gen.tdf_of(spec)
    dat = gen.make_td(tdf, spec, data)
    got = tdf.find_data_type_failures(dat)
    for (t, f) in set(want) | {tuple(k) for k in got}:
        g = set(got[t, f].pks) if (t, f) in got else set()
        w = want.get((t, f), set())
        require(g == w, "rule %s: values %s are reported as bad, expected %s", spec["types"]["t"][f],
                [vals[i] for i in sorted(g)], [vals[i] for i in sorted(w)])
    import pandas as pd
    pdf = gen.pdf_of(spec)
    pdat = pdf.PanDat(t=pd.DataFrame({"k": pd.Series(range(len(vals)), dtype=object),
                                      **{f: pd.Series(vals, dtype=object) for f in fs}}))
    res = pdf.find_data_type_failures(pdat)
    for (t, f) in set(want) | {tuple(k) for k in res}:
        g = set(res[t, f]["k"]) if (t, f) in res else set()
        w = want.get((t, f), set())
        require(g == w, "PanDat rule %s: values %s are reported as bad, expected %s", spec["types"]["t"][f],
                [vals[i] for i in sorted(g)], [vals[i] for i in sorted(w)])
    ctx.nontrivial("rules")


@st.composite
def rule_cells(draw, rule, pk=False):
    """cells around the rule: mostly valid, sometimes not"""
    opts = []
    if rule is None:
        opts = [st.sampled_from([0, 1, 2.5, "a", "b", True, None if draw(st.booleans()) else 3, -7])]
    elif rule[8]:
        opts = [st.sampled_from(gen.DATES), st.sampled_from(DT), st.sampled_from(gen.NOT_DATES),
                st.sampled_from([None, 3, True, 2.5, ""])]
    else:
        number, imin, imax, lo, hi, isint, strs, nul, _ = rule
        near = [x for b in (lo, hi) for x in ([b] if abs(b) == INF else [b, b + 1, b - 1, b + 0.5, b - 0.5])]
        opts = [st.sampled_from(near), st.sampled_from([0, 1, 2, 3, 0.5, 1.0, -1])]
        some = list(strs) if strs not in ("*", []) else ["a", "b", ""]
        opts.append(st.sampled_from(some + some[-1:] + [" " + some[0], some[0] + " ", some[0].upper()]))
        opts.append(st.sampled_from([None, float("nan"), True, False, INF, -INF, "q", "1", DT[0], "nan"]))
        opts.append(st.just((1, 2)))
    if not draw(st.booleans()):
        opts = opts[:draw(st.integers(1, len(opts)))]
    return st.one_of(opts)


@st.composite
def spec_data(draw, tuples=True):
    spec = {"tables": draw(gen.tables(1, 3, max_pk=3, max_df=4)), "types": {}}
    if draw(st.integers(0, 3)) == 0:
        spec["tables"]["parameters"] = [["name"], ["value"]]
    cells = {}
    for t, (pks, dfs) in spec["tables"].items():
        for f in pks + dfs:
            rule = draw(gen.type_rule()) if draw(st.integers(0, 3)) else None
            if rule:
                spec["types"].setdefault(t, {})[f] = rule
            if f in pks and len(pks) == 1:
                # nan keys are as many as there are nan objects
                c = draw(rule_cells(rule)).filter(lambda v: not (isinstance(v, float) and v != v) and not isinstance(v, tuple))
            elif f in pks:
                c = draw(rule_cells(rule)).filter(lambda v: not (isinstance(v, float) and v != v))
            else:
                c = draw(rule_cells(rule))
            if not tuples:
                c = c.filter(lambda v: not isinstance(v, tuple))
            cells[t, f] = c
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 7))
    return spec, data


def failures(spec, data):
    """{(t, f): [row indices]}"""
    out = {}
    for t, (pks, dfs) in spec["tables"].items():
        for j, f in enumerate(pks + dfs):
            rule = spec["types"].get(t, {}).get(f)
            if rule is None:
                if f not in pks:
                    continue
                bad = [i for i, r in enumerate(data[t]) if gen.is_null(r[j])]
            else:
                bad = [i for i, r in enumerate(data[t]) if not gen.rule_ok(rule, r[j])]
            if bad:
                out[t, f] = bad
    return out


@st.composite
def _td_case(draw):
    spec, data = draw(spec_data())
    return {"spec": spec, "data": data, "max": draw(st.one_of(st.integers(1, 8), st.just(2.5))),
            "frozen": draw(st.booleans())}


def check_td(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    dat = gen.make_td(tdf, spec, data)
    if case["frozen"]:
        dat = tdf.freeze_me(dat)
    want = failures(spec, data)
    ident = lambda t, i: gen.pk_of(spec, t, data[t][i]) if spec["tables"][t][0] else i

    def read(res):
        out = {}
        with interpreting("data type failures"):
            for k, v in res.items():
                t, f = k.table, k.field
                j = (spec["tables"][t][0] + spec["tables"][t][1]).index(f)
                require(len(set(v.pks)) == len(v.pks), "%s repeats rows: %s", k, v.pks)
                ids = {ident(t, i): i for i in range(len(data[t]))}
                for p in v.pks:
                    require(p in ids, "%s reports row %s which does not exist", k, p)
                out[t, f] = sorted(ids[p] for p in v.pks)
                vals = [data[t][i][j] for i in out[t, f]]
                real = lambda vs: {x for x in vs if not gen.is_null(x)}
                require(real(vals) == real(v.bad_values), "%s: bad_values %s, cells in the reported rows %s",
                        k, v.bad_values, vals)
                require(any(map(gen.is_null, vals)) == any(map(gen.is_null, v.bad_values)),
                        "%s: null in bad_values %s, cells %s", k, v.bad_values, vals)
                require(len(real(v.bad_values)) == len([x for x in v.bad_values if not gen.is_null(x)]),
                        "%s: bad_values repeat: %s", k, v.bad_values)
        return out
    require_eq(read(tdf.find_data_type_failures(dat)), want, "data type failures")
    total, cap = sum(map(len, want.values())), case["max"]
    some = read(tdf.find_data_type_failures(dat, max_failures=cap))
    check_cap(some, want, total, cap)
    require_eq(gen.norm_rows(sum((gen.td_rows(spec, dat, t) for t in data), [])),
               gen.norm_rows(sum((data[t] for t in data), [])), "the data after looking for failures")
    finish(ctx, spec, data, want)


def finish(ctx, spec, data, want):
    for t, f in want:
        if f in spec["tables"][t][0]:
            ctx.label("key field fails")
        if not spec["tables"][t][0]:
            ctx.label("keyless table fails")
    if want:
        ctx.nontrivial("failures")
    elif any(data[t] for t in spec["types"]):
        ctx.nontrivial("clean")


def check_cap(some, want, total, cap):
    n = sum(map(len, some.values()))
    require(min(1, total) <= n <= -(-cap // 1), "max_failures=%s reported %s of %s failures", cap, n, total)
    if total < cap:
        require_eq(some, want, "failures below max_failures")
    for k, v in some.items():
        require(k in want and v and set(v) <= set(want[k]), "max_failures reported something that is no failure: %s %s", k, v)


@st.composite
def _pd_case(draw):
    spec, data = draw(spec_data(tuples=False))
    return {"spec": spec, "data": data, "max": draw(st.integers(1, 8)),
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans())}


def check_pd(case, ctx):
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    odd_frames(spec, pdf, dat, case["index"], case["extra"])
    # what the frames really hold: pandas may have made 1 and True into objects or floats, which is its business
    data = {t: gen.pd_rows(spec, dat, t) for t in spec["tables"]}
    data = {t: [[native(c) for c in r] for r in rows] for t, rows in data.items()}
    want = failures(spec, data)

    def read(res, as_table):
        out = {}
        with interpreting("data type failures"):
            for k, v in res.items():
                t, f = k.table, k.field
                df = getattr(dat, t)
                if as_table:
                    cols = sum(spec["tables"][t], [])
                    require(list(v.columns) == list(df.columns), "columns of the failing rows: %s", list(v.columns))
                    out[t, f] = (gen.norm_rows(list(r) for r in v[cols].itertuples(index=False, name=None)), list(v.index))
                else:
                    require(list(v.index) == list(df.index), "index of the failure flags")
                    out[t, f] = [i for i, b in enumerate(v) if b]
        return out
    require_eq(read(pdf.find_data_type_failures(dat, as_table=False), False), want, "boolean failures")
    require_eq(read(pdf.find_data_type_failures(dat), True),
               {k: (gen.norm_rows(data[k[0]][i] for i in v), [list(getattr(dat, k[0]).index)[i] for i in v])
                for k, v in want.items()}, "failing rows")
    total, cap = sum(map(len, want.values())), case["max"]
    check_cap(read(pdf.find_data_type_failures(dat, as_table=False, max_failures=cap), False), want, total, cap)
    for t in data:
        require_eq(gen.norm_rows(gen.pd_rows(spec, dat, t)), gen.norm_rows(data[t]), "table %s after the check" % t)
    finish(ctx, spec, data, want)


def native(c):
    if type(c).__name__ == "bool_":
        return bool(c)
    if type(c).__module__ == "numpy" and hasattr(c, "item"):
        return c.item()
    if type(c).__name__ == "NaTType":
        return None
    return c


FACETS = [
    Facet("lattice", check_lattice, cases=lattice, rule="every case"),
    Facet("ticdat", check_td, _td_case, quick=6000, rule="failures exist, or typed tables have rows and none fails"),
    Facet("pandat", check_pd, _pd_case, quick=2500, rule="failures exist, or typed tables have rows and none fails"),
]
