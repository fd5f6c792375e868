import datetime, itertools
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames

TECHNIQUE = ("round trip TicDat -> pandas -> PanDat -> TicDat and back over random schemas, data and options; documented index and columns checked; "
             "sloc compared with a linear scan")
NOTE = ("Null cells compare as one value. Empty tables are only required to have the data columns (no index or sloc is promised for them). Integers "
        "stay below 2**53, where pandas' promotion to float is exact.")
INF = gen.INF
DT = [datetime.datetime(2020, 1, d, 3, 4, 5) for d in (1, 2, 3)]
KEYS = {"int": st.integers(-2, 5), "str": st.sampled_from(["a", "b", "1", "é", "x y", ""]), "float": st.sampled_from([0.5, 1.0, 2.5, -3.0]),
        "mixed": st.sampled_from([0, 1, "a", "1", 2.5]), "dt": st.sampled_from(DT), "inf": st.sampled_from([0, INF, -INF, 1.5])}
DATA = dict(KEYS, null=st.sampled_from([None, 1, 2.5]), nan=st.sampled_from([float("nan"), 1.5, 2]), wild=st.sampled_from(
    [None, 1, "a", "", 2.5, True, False, DT[0], float("nan"), INF]), bool=st.booleans(), boolnull=st.sampled_from([True, False, None]),
    big=st.sampled_from([2 ** 40, -2 ** 50, 12345678901, 0.1, 1e300]), strnull=st.sampled_from(["a", None, "nan", "None"]),
    none=st.none(), dtnull=st.sampled_from([DT[0], None]))


@st.composite
def _case(draw, generics=True):
    spec = {"tables": draw(gen.tables(1, 4)), "fks": []}
    if draw(st.integers(0, 3)) == 0:
        spec["fks"] = draw(gen.fk_list(spec["tables"]))
    cells = {}
    for t, (pks, dfs) in spec["tables"].items():
        for f in pks:
            cells[t, f] = KEYS[draw(st.sampled_from(sorted(KEYS)))]
        for f in dfs:
            cells[t, f] = DATA[draw(st.sampled_from(sorted(DATA)))]
            if draw(st.integers(0, 5)) == 0:
                spec.setdefault("defaults", {}).setdefault(t, {})[f] = draw(st.sampled_from([3, "d", None]))
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 7))
    gt = {}
    if generics and draw(st.integers(0, 3)) == 0:
        n = draw(st.integers(0, 3))
        gt["gen_t"] = [["c1", "c 2"], [[draw(st.integers(0, 3)), draw(st.sampled_from(["x", "y"]))] for _ in range(n)]]
        spec["tables"]["gen_t"] = "*"
    names = list(spec["tables"])
    restr = draw(st.one_of(st.none(), st.lists(st.sampled_from(names), unique=True)))
    return {"spec": spec, "data": data, "generic": gt, "restr": restr, "drop": draw(st.sampled_from([None, None, True, False])),
            "reset": draw(st.booleans()), "freeze": draw(st.booleans()), "frozen_source": draw(st.booleans()),
            "index": draw(st.sampled_from(["range", "reversed", "str"])), "extra": draw(st.booleans()),
            "container": draw(st.sampled_from(["list", "tuple", "set"]))}


def generic_frames(case):
    import pandas as pd
    return {t: pd.DataFrame(rows, columns=cols) for t, (cols, rows) in case["generic"].items()}


def same_frame(a, b):
    import pandas as pd
    return isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and \
        gen.norm_rows(a.values.tolist()) == gen.norm_rows(b.values.tolist())


def frame_rows(df, fs, pks):
    """rows of a frame whose pk fields may be in the columns or in the index only"""
    n = len(df)
    cols = []
    for f in fs:
        if f in df.columns:
            cols.append(list(df[f]))
        else:
            require(f in df.index.names, "field %s is in neither the columns nor the index", f)
            cols.append(list(df.index.get_level_values(list(df.index.names).index(f))))
    return [list(r) for r in zip(*cols)] if n else []


def mess_up(obj, spec):
    for t in spec["tables"]:
        df = getattr(obj, t, None)
        if df is not None and hasattr(df, "columns") and len(df):
            for c in list(df.columns):
                df[c] = -77


def check_to_pandas(case, ctx):
    import pandas as pd
    from ticdat import PanDatFactory
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    gf = generic_frames(case)
    dat = tdf.TicDat(**{**{t: gen.td_table(spec, t, rows) for t, rows in data.items()}, **gf})
    if case["frozen_source"]:
        tdf.freeze_me(dat)
    kw = {}
    if case["restr"] is not None:
        kw["table_restrictions"] = {"list": list, "tuple": tuple, "set": set}[case["container"]](case["restr"])
    if case["drop"] is not None:
        kw["drop_pk_columns"] = case["drop"]
    if case["reset"]:
        kw["reset_index"] = True
    res = tdf.copy_to_pandas(dat, **kw)
    want_tables = set(case["restr"] or spec["tables"])
    require_eq({t for t in spec["tables"] if hasattr(res, t)}, want_tables, "tables of the copy")
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the source after copy_to_pandas")
    for t in sorted(want_tables):
        df = getattr(res, t)
        require(isinstance(df, pd.DataFrame), "table %s of the copy is a %s", t, type(df).__name__)
        if t in gf:
            require(same_frame(gf[t], df), "generic table %s was not copied", t)
            continue
        pks, dfs = spec["tables"][t]
        require_eq(gen.diff_content({t: data[t]}, {t: frame_rows(df, pks + dfs, pks)}), None, "content of the frame")
        if not data[t]:
            require(set(dfs) <= set(df.columns), "columns of the empty %s: %s", t, list(df.columns))
            continue
        ctx.nontrivial("rows")
        drop = (bool(dfs) if case["drop"] is None else case["drop"]) and bool(pks) and not case["reset"]
        require_eq(list(df.columns), dfs if drop else pks + dfs, "columns of %s with %s" % (t, kw))
        if case["reset"] or not pks:
            require_eq(list(df.index), list(range(len(df))), "index of %s" % t)
        else:
            require_eq(list(df.index.names), pks, "index of %s" % t)
            keys = [[k] if len(pks) == 1 else list(k) for k in df.index]
            want = [r[:len(pks)] for r in data[t]]
            require_eq(gen.diff_content({t: want}, {t: keys}), None, "index values")
    # a valid PanDat object
    pdf = PanDatFactory(**tdf.schema())
    if want_tables == set(spec["tables"]) and (case["reset"] or case["drop"] is False):
        msgs = []
        require(pdf.good_pan_dat_object(res, msgs.append), "the copy is no good PanDat object: %s", msgs)
        pan = pdf.PanDat(**{t: getattr(res, t) for t in spec["tables"]})
        require_eq(gen.diff_content(data, gen.pd_content(spec, pan)), None, "PanDat built from the copy")
        if not gf:
            back = pdf.copy_to_tic_dat(res)
            require_eq(gen.diff_content(data, gen.td_content(spec, back)), None, "copied to pandas and back")
        ctx.label("and back")
    mess_up(res, spec)
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the source after its copy was edited")
    for t in gf:
        require(same_frame(gf[t], getattr(dat, t)), "generic table %s of the source after its copy was edited", t)


def check_to_ticdat(case, ctx):
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    gf = generic_frames(case)
    dat = gen.make_pd(pdf, spec, data)
    for t in gf:
        setattr(dat, t, gf[t].copy())
    odd_frames({"tables": {t: v for t, v in spec["tables"].items() if v != "*"}}, pdf, dat, case["index"], case["extra"])
    before = {t: (list(getattr(dat, t).columns), list(getattr(dat, t).index)) for t in data}
    res = pdf.copy_to_tic_dat(dat, freeze_it=True) if case["freeze"] else pdf.copy_to_tic_dat(dat)
    from ticdat import TicDatFactory
    tdf = TicDatFactory(**pdf.schema())
    msgs = []
    require(tdf.good_tic_dat_object(res, msgs.append), "the copy is no good TicDat object: %s", msgs)
    require_eq(gen.diff_content(data, gen.td_content(spec, res)), None, "copied to TicDat")
    require_eq(gen.diff_content(data, gen.pd_content(spec, dat)), None, "the source after copy_to_tic_dat")
    require_eq({t: (list(getattr(dat, t).columns), list(getattr(dat, t).index)) for t in data}, before, "columns and indexes of the source")
    for t in gf:
        require(same_frame(gf[t], getattr(res, t)), "generic table %s was not copied", t)
    if any(data.values()):
        ctx.nontrivial("rows")
    t = next((t for t in data if data[t] and spec["tables"][t][0]), None)
    if t is not None and case["freeze"]:
        try:
            getattr(res, t).clear()
            froze = False
        except Exception:
            froze = True
        require(froze, "freeze_it: %s of the copy could be cleared", t)
        ctx.label("frozen")
    if not gf:
        again = tdf.copy_to_pandas(res, reset_index=True)
        require_eq(gen.diff_content(data, gen.pd_content(spec, again)), None, "copied to TicDat and back")
    mess_up(dat, spec)
    require_eq(gen.diff_content(data, gen.td_content(spec, res)), None, "the copy after its source was edited")


# ---------------------------------------------------------------- sloc
@st.composite
def _sloc(draw):
    n = draw(st.integers(1, 4))
    pools = [draw(st.sampled_from([[0, 1, 2, 3], ["a", "b", "c"], [1.5, 2.0, 3.5]])) for _ in range(n)]
    rows = draw(st.lists(st.tuples(*[st.sampled_from(p) for p in pools], st.sampled_from([0, 1, 2.5, 7]), st.sampled_from(["u", "v"])),
                         max_size=10, min_size=1, unique_by=lambda r: r[:n]))
    keys = draw(st.lists(st.tuples(*[st.sampled_from(["*", "*"] + p + [p[0]]) for p in pools]), min_size=1, max_size=5))
    return {"n": n, "rows": [list(r) for r in rows], "keys": [list(k) for k in keys], "via": draw(st.sampled_from(
        ["copy", "copy", "series", "frame"])), "drop": draw(st.sampled_from([None, True, False]))}


def check_sloc(case, ctx):
    import pandas as pd
    from ticdat import TicDatFactory, Sloc
    n, rows = case["n"], case["rows"]
    pks = ["p%s" % i for i in range(n)]
    if case["via"] == "copy":
        spec = {"tables": {"t": [pks, ["x", "y"]]}}
        tdf = gen.tdf_of(spec)
        kw = {} if case["drop"] is None else {"drop_pk_columns": case["drop"]}
        df = tdf.copy_to_pandas(gen.make_td(tdf, spec, {"t": rows}), **kw).t
        series = {"x": df.x, "y": df["y"]}
    else:
        df = pd.DataFrame(rows, columns=pks + ["x", "y"]).set_index(pks)
        if case["via"] == "frame":
            require(Sloc.add_sloc(df) is (df if n > 1 else None), "add_sloc result")
            series = {"x": df.x, "y": df["y"]}
        else:
            s = df["x"]
            require(Sloc.add_sloc(s) is (s if n > 1 else None), "add_sloc result")
            series = {"x": s}
    if n == 1:
        ctx.label("no multi index")
        return
    for c, s in series.items():
        j = n + ["x", "y"].index(c)
        for key in case["keys"]:
            k = tuple(slice(None) if x == "*" else x for x in key)
            want = [r for r in rows if all(a == "*" or a == b for a, b in zip(key, r))]
            wild = any(x == "*" for x in key)
            try:
                got = s.sloc[k]
            except KeyError as e:
                require(not wild and not want, "%s.sloc[%s] raised %r", c, key, e)
                ctx.label("key error")
                continue
            require(wild or want, "%s.sloc[%s] does not exist but gave %s", c, key, got)
            if not wild:
                require_eq(gen.norm(got), gen.norm(want[0][j]), "%s.sloc[%s]" % (c, key))
                continue
            require(isinstance(got, pd.Series), "%s.sloc[%s] is a %s", c, key, type(got).__name__)
            require_eq(sorted(map(repr, gen.norm_rows([[v] for v in got]))), sorted(map(repr, gen.norm_rows([[r[j]] for r in want]))),
                       "%s.sloc[%s]" % (c, key))
            # labels of the slice: whole keys or just the wildcard levels
            free = [i for i in range(n) if key[i] == "*"]
            pairs = []
            for lab, v in got.items():
                lab = lab if isinstance(lab, tuple) else (lab,)
                if len(lab) == n:
                    lab = [lab[i] for i in free]
                pairs.append([*lab, v])
            if want:
                require_eq(gen.diff_content({"t": [[r[i] for i in free] + [r[j]] for r in want]}, {"t": pairs}), None,
                           "labels of %s.sloc[%s]" % (c, key))
                ctx.nontrivial("slices")
            else:
                ctx.nontrivial("empty slices")
    k0 = rows[0][0]
    got = series["x"].sloc[k0]
    require_eq(sorted(gen.norm(v) for v in got), sorted(gen.norm(r[n]) for r in rows if r[0] == k0), "sloc[first level]")


FACETS = [
    Facet("to_pandas", check_to_pandas, _case, quick=2500, rule="a non-empty table was copied"),
    Facet("to_ticdat", check_to_ticdat, _case, quick=2000, rule="a non-empty table was copied"),
    Facet("sloc", check_sloc, _sloc, quick=1200, rule="a slice with wildcards was taken"),
]
