import datetime, os
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting
from .p17 import stored
from .p18 import rows_differ, looks_number

TECHNIQUE = ("property-based testing (Hypothesis): data with infinities and numbers around the flag written by both factories in every file format, the stored "
             "cells read by independent readers and compared with a model, read back, and files written without the flag read with it")
NOTE = ("JSON, CSV, SQLite .db and .sql, .xls, .xlsx for TicDat and JSON, CSV, SQLite, .xlsx for PanDat; keyed, keyless, generator, generic and parameters tables. "
        "Excluded: finite numbers beyond the flag in round trips (they read as infinity by design), infinities in generic tables under the None flag, PanDat columns mixing text and numbers, "
        "generator tables with native infinities in Excel (documented as not implemented).")
INF = float("inf")
FLAGS = ["N/A", None, None, 999, 1e6, 12.5, 1]
rule = lambda lo, hi, null=False, strs=(), num=True, date=False, il=True, ih=True, integer=False: [num, il, ih, lo, hi, integer, list(strs) if strs != "*" else "*", null, date]


def field(draw, is_pk, flag, pan, fmt):
    """[kind, rule, cells]: cells are those the rule admits that a round trip must keep"""
    k = draw(st.sampled_from(["null", "up", "down", "up open", "finite", "untyped", "text", "both", "both down", "int up", "free"] if not is_pk else
                             ["text", "up", "untyped", "finite", "down", "free"]))
    if is_pk and fmt == "csv" and not pan and (k == "untyped" or k == "free" and flag is None):
        k = "up"  # undeclared keys stay text in CSV files
    big = [c for c in (0, 1, -1, 0.5, 7, -3.25, 12, 12.25, 998, 998.5, 999999, 1e5, 1000, 1e6, 1e9, -12, -998.5, -1e6, -2e7)
           if not isinstance(flag, (int, float)) or abs(c) < flag]
    up, down = [c for c in big if c >= -5], [c for c in big if c <= 5]
    if k == "null":
        return [k, rule(-INF, INF, null=True), big + ([INF, -INF] if flag is not None or not pan else []) + [None]]
    if k == "free":
        if flag is None:
            return ["untyped", None, big + ([INF, -INF] if not is_pk else [])]
        return [k, rule(-INF, INF), big + [INF, -INF]]
    if k == "up":
        return [k, rule(-5, INF), up + [INF]]
    if k == "int up":
        return [k, rule(-5, INF, integer=True), [c for c in up if c == int(c)] + [INF]]
    if k == "down":
        return [k, rule(-INF, 5), down + [-INF]]
    if k == "up open":
        return [k, rule(-5, INF, ih=False), up]
    if k == "finite":
        return [k, rule(-5, 5, null=not is_pk and draw(st.booleans())), [0, 0.5, -0.25, 0.75]]
    if k == "text":
        return [k, rule(0, INF, strs="*", num=False), ["a", "b c", "1000000", "x", "-5"]]
    if k == "both":
        return [k, rule(-5, INF, strs="*"), up + [INF] + ([] if pan else ["txt"])]
    if k == "both down":
        return [k, rule(-INF, 5, strs="*"), down + [-INF] + ([] if pan else ["txt"])]
    return ["untyped", None, big + [INF, -INF]]


def bias(spec, t, f):
    """the sign of the infinity that null stands for under the None flag"""
    ty = (spec["types"].get(t) or {}).get(f)
    if not ty or not ty[0] or ty[7] or ty[8]:
        return None
    if ty[4] == INF and ty[2]:
        return 1
    if ty[3] == -INF and ty[1]:
        return -1
    return None


@st.composite
def _case(draw, what):
    pan = draw(st.integers(0, 2)) == 0
    fmt = draw(st.sampled_from(formats.PD if pan else formats.TD))
    flag = draw(st.sampled_from(FLAGS if what == "store" else FLAGS[1:]))
    few = draw(st.booleans())  # the same field names in several tables
    tabs = draw(gen.tables(1 + few, 3, fpool=gen.FIELD_NAMES[:4] if few else gen.FIELD_NAMES, max_df=2 if few else 3, max_pk=2 if few else 3))
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "inf": flag}
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            k, r, c = field(draw, f in pks, flag, pan, fmt)
            if r is not None:
                spec["types"].setdefault(t, {})[f] = r
            if what == "read" and k != "text":
                c = list(c)
                if isinstance(flag, (int, float)):
                    c += [flag, flag, flag * 1.5, -flag, -flag * 2, 1e12, -1e12]
                if flag is None and bias(spec, t, f) and f not in pks:
                    c += [None] * 4
            if what == "read" and isinstance(flag, (int, float)) and fmt in ("sql", "xlsx"):  # text there
                c = [v for v in c if not isinstance(v, float) or abs(v) != INF]
            if fmt == "sql" and flag is None:  # documented: .sql does not hold native infinities then
                c = [v for v in c if not isinstance(v, float) or abs(v) != INF or (what == "store" and stored(spec, t, f, v) is None)] or [0]
            cells[t, f] = st.sampled_from(c)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5))
    if what == "read":  # keys that become equal would be duplicates
        for t, (pks, dfs) in tabs.items():
            seen = {tuple(model_read(spec, t, f, c) for f, c in zip(pks, r)): r for r in data[t]}
            if pks:
                data[t] = list(seen.values())
    if fmt in ("xls", "xlsx"):
        for t in data:  # trailing empty rows cannot be told from no rows
            fs = sum(tabs[t], [])
            empty = lambda r: all((stored(spec, t, f, c) if what == "store" else c) is None for f, c in zip(fs, r))
            while data[t] and empty(data[t][-1]):
                data[t].pop()
    gens = [] if pan or draw(st.integers(0, 2)) else [t for t, v in tabs.items() if not v[0] and draw(st.booleans())]
    if fmt == "sql" or fmt.startswith("json"):
        gens = []
    if gens and fmt == "xlsx":
        for t in data:
            data[t] = [r for r in data[t] if not any(isinstance(c, float) and abs(c) == INF and (flag == "N/A" or what == "read" or
                                                     (flag is None and stored(spec, t, f, c) is not None)) for c, f in zip(r, sum(tabs[t], [])))]
            while data[t] and all((stored(spec, t, f, c) if what == "store" else c) is None for f, c in zip(sum(tabs[t], []), data[t][-1])):
                data[t].pop()
    spec["gens"] = gens
    params, generic = None, None
    if draw(st.integers(0, 2)) == 0:
        params = [[k, draw(st.sampled_from([0, 3, 999, 1e6, 5e8, -7e7, 0.25]))] for k in draw(st.lists(st.sampled_from(["p", "q r", "s"]), unique=True))]
        spec["tables"]["parameters"] = [["name"], ["val"]]
        if draw(st.booleans()):
            spec["params"] = {k: [rule(-INF, INF), 3] for k, _ in params}
    if what == "store" and not pan and not gens and not fmt.startswith("json") and fmt != "xls" and draw(st.integers(0, 2)) == 0:
        big = [c for c in (0.5, 7, -3.25, 998.5, 2e5) if flag in ("N/A", None) or abs(c) < flag] + ([INF, -INF] if flag is not None else [])
        generic = [["c1", "c2"], [[draw(st.sampled_from(big)), draw(st.sampled_from(["x", "y z"]))] for _ in range(draw(st.integers(0, 4)))]]
    return {"spec": spec, "data": data, "fmt": fmt, "pan": pan, "params": params, "generic": generic, "freeze": draw(st.booleans())}


def cellnorm(v, textual):
    if isinstance(v, str):
        if v == "":
            return None
        if v.lower() in ("inf", "-inf"):
            return float(v)
        if not textual and looks_number(v):
            return float(v)
    if isinstance(v, float) and v != v:
        return None
    return v


def is_text(spec, t, f):
    ty = (spec["types"].get(t) or {}).get(f)
    return bool(ty) and not ty[0]


def flagged_rows(got):
    return {t: [[None if isinstance(c, float) and c != c else c for c in r] for r in rows] for t, rows in got.items()}


def full_of(case):
    full = dict(case["data"])
    if case["params"] is not None:
        full["parameters"] = case["params"]
    return full


def read_kw(case):
    kw = {}
    if not case["pan"] and case["freeze"] and not case["generic"]:
        kw["freeze_it"] = True
    if case["spec"]["gens"] and case["fmt"] in ("xls", "xlsx"):
        kw["treat_inf_as_infinity"] = False
    return kw


def check_store(case, ctx):
    import pandas as pd
    spec, fmt, pan = dict(case["spec"]), case["fmt"], case["pan"]
    full, flag = full_of(case), spec["inf"]
    if case["generic"]:
        spec["tables"] = {**spec["tables"], "gen_t": "*"}
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    extra = {"gen_t": pd.DataFrame(case["generic"][1], columns=case["generic"][0])} if case["generic"] else {}
    if pan:
        dat = gen.make_pd(f, spec, full)
    else:
        dat = f.TicDat(**{t: gen.td_table(spec, t, rows) for t, rows in full.items()}, **extra)
    path = formats.target(ctx.tmpdir(), fmt)
    (formats.write_pd if pan else formats.write_td)(f, dat, path, fmt)
    require_eq(gen.diff_content(full, flagged_rows(gen.pd_content(spec, dat)) if pan else gen.td_content(spec, dat)), None, "the data in memory after the write")
    if case["generic"]:
        require_eq(gen.norm_rows(dat.gen_t.values.tolist()), gen.norm_rows(case["generic"][1]), "the generic table in memory after the write")
    fields = {t: sum(spec["tables"][t], []) for t in full}
    with interpreting("the file"):
        held = formats.raw(path, fmt, fields)
    for t, rows in full.items():
        want = [[cellnorm(stored(spec, t, g, v), is_text(spec, t, g)) for g, v in zip(fields[t], r)] for r in rows]
        found = [[cellnorm(v, is_text(spec, t, g)) for g, v in zip(fields[t], r)] for r in held.get(t, [])]
        if t == "parameters":  # may be stored as text
            found = [[r[0], float(r[1])] for r in found]
        require_eq(rows_differ(want, found), None, "stored cells of %s" % t)
        if isinstance(flag, (int, float)) and t != "parameters":
            require(not any(isinstance(c, (int, float)) and abs(c) > flag for r in found for c in r), "%s stores a number beyond the flag: %s", t, found)
    back = (formats.read_pd if pan else formats.read_td)(f, path, fmt, **read_kw(case))
    got = flagged_rows(gen.pd_content(spec, back) if pan else gen.td_content(spec, back))
    for t, rows in full.items():
        require_eq(rows_differ(rows, got[t]), None, "data of %s read back" % t)
    if case["generic"] and case["generic"][1]:
        require_eq(gen.norm_rows(back.gen_t.values.tolist()), gen.norm_rows(case["generic"][1]), "generic table read back")
        ctx.label("generic")
    if any(isinstance(c, float) and abs(c) == INF for rows in full.values() for r in rows for c in r):
        ctx.nontrivial("infinities")
        note(case, ctx)


def note(case, ctx):
    ctx.label(("pandat " if case["pan"] else "ticdat ") + case["fmt"])
    ctx.label("flag %s" % case["spec"]["inf"])
    if case["spec"]["gens"]:
        ctx.label("generator tables")
    if case["params"]:
        ctx.label("parameters")


def model_read(spec, t, f, v):
    flag = spec["inf"]
    if t == "parameters":
        return v
    if isinstance(flag, (int, float)):
        if isinstance(v, (int, float)) and abs(v) >= flag:
            return INF if v > 0 else -INF
        return v
    if v is None and flag is None and bias(spec, t, f):
        return bias(spec, t, f) * INF
    return v


def check_read(case, ctx):
    """a file written by a factory without a flag, read by one with the flag"""
    spec, fmt, pan = case["spec"], case["fmt"], case["pan"]
    full = full_of(case)
    plain = {**spec, "inf": "N/A", "gens": [], "types": {t: {f: r[:7] + [True] + r[8:] for f, r in d.items()} for t, d in spec["types"].items()}}
    w = gen.pdf_of(plain) if pan else gen.tdf_of(plain)
    dat = gen.make_pd(w, plain, full) if pan else gen.make_td(w, plain, full)
    path = formats.target(ctx.tmpdir(), fmt)
    (formats.write_pd if pan else formats.write_td)(w, dat, path, fmt)
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    back = (formats.read_pd if pan else formats.read_td)(f, path, fmt, **read_kw(case))
    got = flagged_rows(gen.pd_content(spec, back) if pan else gen.td_content(spec, back))
    n = 0
    for t, rows in full.items():
        want = [[model_read(spec, t, g, v) for g, v in zip(sum(spec["tables"][t], []), r)] for r in rows]
        n += sum(a != b for x, y in zip(want, rows) for a, b in zip(x, y))
        require_eq(rows_differ(want, got[t]), None, "rows of %s read under the flag" % t)
    if n:
        ctx.nontrivial("cells became infinite")
        note(case, ctx)


# ---------------------------------------------------------------- null cannot stand for two infinities
def ambiguous():
    return [{"pan": p, "fmt": fmt, "where": where} for p in (False, True) for fmt in (formats.PD if p else formats.TD) for where in ("pk", "data", "keyless")]


def check_ambiguous(case, ctx):
    from ticdat.utils import TicDatError
    fmt, pan = case["fmt"], case["pan"]
    tabs = {"t": [["a"], ["b"]] if case["where"] != "keyless" else [[], ["a", "b"]]}
    bad = "a" if case["where"] == "pk" else "b"
    spec = {"tables": tabs, "fks": [], "types": {"t": {bad: rule(-INF, INF)}}, "defaults": {}, "inf": None}
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    for v in (1, INF):
        rows = {"t": [[v if bad == "a" else 2, v if bad == "b" else 3]]}
        dat = gen.make_pd(f, spec, rows) if pan else gen.make_td(f, spec, rows)
        try:
            (formats.write_pd if pan else formats.write_td)(f, dat, formats.target(ctx.tmpdir(), fmt), fmt)
        except TicDatError as e:
            require("infinity" in str(e).lower(), "the message does not say why: %s", e)
            continue
        fail("a field that admits both infinities was written under the None flag (value %s)" % v)
    ctx.nontrivial(fmt)


FACETS = [
    Facet("store", check_store, lambda: _case("store"), quick=2400, rule="the data had infinities"),
    Facet("read", check_read, lambda: _case("read"), quick=1200, rule="some stored cell stood for an infinity"),
    Facet("ambiguous", check_ambiguous, cases=ambiguous, rule="every format refuses a field that admits both infinities under the None flag"),
]
