import datetime, json, os
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = ("write/read round trip over random schemas, types, infinity flags and data for both factories and every JSON layout and option, and the file parsed "
             "with the json module; mutation of valid JSON text into malformed text, which must be refused")
NOTE = ("Not generated, because documented or inherent in the layout: numbers beyond the infinity flag, numeric text in fields whose rule allows numbers and "
        "strings, the text 'none' for PanDat, and for the pandas layout (write_file_pd) text that looks like a number or date in untyped fields "
        "and more than 9 significant digits.")
INF = gen.INF
DT = [datetime.datetime(2020, 1, d, 3, 4, 5) for d in (1, 2, 3)] + [datetime.datetime(1999, 12, 31), datetime.datetime(2024, 2, 29, 23, 59, 59, 123456)]
TEXT = st.one_of(st.sampled_from(["a", "b", "hot dog", "1", "1.50", "", "é", "日本", "true", "null", "NaN", "inf", "-Infinity", "x,y", '"', "\\", "a\nb", "\t", "'", "[1]", "\U0001f600",
                                  "2020-01-01"]),
                 st.text(max_size=5).filter(lambda s: all(not 0xD800 <= ord(c) < 0xE000 for c in s)))
SAFE_TEXT = st.sampled_from(["a", "b", "hot dog", "é", "日本", "x,y", '"q"', "back\\slash", "a\nb", "it's", "[1]", "\U0001f600", "xyz"])
KEYS = {"int": st.integers(-2, 9), "str": TEXT, "float": st.sampled_from([0.5, 1.25, -3.0, 1e20, 0.1]), "mixed": st.sampled_from([0, 1, "a", "1", 2.5, "é"]),
        "big": st.integers(-10 ** 20, 10 ** 20)}
DATA = {"int": st.integers(-900, 900), "str": TEXT, "float": st.one_of(st.sampled_from([0.5, 0.1, -1e-7, 3.0, 1 / 3, 12.5]), st.floats(-900, 900)),
        "mixed": st.sampled_from([1, "a", None, 2.5, True, False, "1", ""]), "bool": st.booleans(), "null": st.sampled_from([None, 1, 2]),
        "none": st.none(), "strnull": st.one_of(st.none(), TEXT), "boolnull": st.sampled_from([True, False, None])}


def io_spec(draw, keys, data, text, param_ok=True, datetime_ok=True, keyless=True, numeric_keys=True):
    """spec, cells: a schema with types and an infinity flag, and cells that the storage must preserve"""
    tabs = draw(gen.tables(1, 3, keyless=keyless))
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "munge": draw(st.booleans())}
    spec["inf"] = draw(st.sampled_from(["N/A", "N/A", 1e6, 999, None]))
    if draw(st.integers(0, 4)) == 0:
        tabs["parameters"] = [["name"], ["val"]]
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            pool = keys if f in pks else data
            c = pool[draw(st.sampled_from(sorted(pool)))]
            k = draw(st.integers(0, 9))
            plain = t == "parameters"
            if k == 0 and datetime_ok and not plain:
                spec["types"].setdefault(t, {})[f] = [True, True, False, 0, INF, False, [], f not in pks, True]
                c = st.sampled_from(DT if f in pks else DT + [None])
            elif k == 1:
                spec["types"].setdefault(t, {})[f] = [False, True, False, 0, INF, False, "*", draw(st.booleans()), False]
                c = text
            elif k == 2 and numeric_keys:
                spec["types"].setdefault(t, {})[f] = [True, True, True, -INF, INF, False, [], True, False]
                c = st.sampled_from([1, -2, 2.5, 0, 7] + ([INF, -INF] if spec["inf"] is not None and not plain else []))
            elif k == 3 and numeric_keys and not plain:
                spec["types"].setdefault(t, {})[f] = [True, True, True, -5, INF, False, [], False, False]
                c = st.sampled_from([1, -2, 2.5, 0, INF])
            elif k == 4 and numeric_keys and not plain:
                spec["types"].setdefault(t, {})[f] = [True, True, True, -INF, 500, False, [], False, False]
                c = st.sampled_from([1, -2, 2.5, 0, -INF])
            elif k == 5:
                spec["types"].setdefault(t, {})[f] = [True, True, True, -INF, INF, False, "*", True, False]
                c = st.sampled_from([1, 2.5, "a", "b"] + ([None] if f not in pks else []))
            elif k == 6 and f in dfs and not plain and spec["inf"] == "N/A":
                c = st.sampled_from([INF, -INF, 1, 2.5])
            cells[t, f] = c
            if f in dfs and draw(st.integers(0, 5)) == 0:
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([3, "d", None]))
    return spec, cells


def within_flag(spec, data):
    """the data with everything finite beyond a numeric flag scaled down"""
    flag = spec["inf"]
    if not isinstance(flag, (int, float)):
        return data
    out = {}
    for t, rows in data.items():
        out[t] = []
        seen = set()
        n = len(spec["tables"][t][0])
        for r in rows:
            r = [c if not isinstance(c, (int, float)) or isinstance(c, bool) or abs(c) < flag or abs(c) == INF else c % 100 for c in r]
            k = tuple(r[:n])
            if n and k in seen:
                continue
            seen.add(k)
            out[t].append(r)
    return out


def small_numbers(spec, data):
    """one column of a frame cannot hold both 64 bit and bigger numbers exactly"""
    data = {t: [[c if not isinstance(c, int) or isinstance(c, bool) or abs(c) < 2 ** 50 else c % 1000 for c in r] for r in rows]
            for t, rows in data.items()}
    for t, rows in data.items():
        n, seen, out = len(spec["tables"][t][0]), set(), []
        for r in rows:
            k = tuple(map(gen.norm, r[:n]))
            if not n or k not in seen:
                out.append(r)
            seen.add(k)
        data[t] = out
    return data


@st.composite
def _td(draw):
    spec, cells = io_spec(draw, KEYS, DATA, TEXT)
    data = within_flag(spec, draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5)))
    mode, fp = draw(st.sampled_from(["plain", "plain", "verbose", "pandas"])), draw(st.integers(0, 3)) == 0
    if mode == "pandas" or fp:
        data = small_numbers(spec, data)
    return {"spec": spec, "data": data, "mode": mode, "string": draw(st.booleans()), "from_pandas": fp, "freeze": draw(st.booleans()), "numpy": draw(st.integers(0, 3)) == 0}


def typed(x):
    """value with its type, as JSON can keep it"""
    if x is None or x != x:
        return "null"
    return type(x).__name__, repr(x)


def numpied(v):
    import numpy
    if isinstance(v, bool):
        return numpy.bool_(v)
    if isinstance(v, int) and abs(v) < 2 ** 60:
        return numpy.int64(v)
    if isinstance(v, float):
        return numpy.float64(v)
    return v


def stored(spec, t, f, v):
    """the JSON value that must be stored"""
    if isinstance(v, datetime.datetime):
        return str(v)
    if t == "parameters" or not isinstance(v, (int, float)) or abs(v) < INF or v != v:
        return v
    if spec["inf"] == "N/A":
        return v
    if spec["inf"] is None:
        ty = spec.get("types", {}).get(t, {}).get(f)
        if ty and ty[0] and not ty[7] and (ty[4] if v > 0 else -ty[3]) == INF and not gen.rule_ok(ty, -v):
            return None
        return v
    return spec["inf"] if v > 0 else -spec["inf"]


def check_file(spec, data, js, verbose, what):
    require_eq(sorted(js), sorted(spec["tables"]), "tables in the JSON")
    got, want = {}, {}
    for t in data:
        fs = sum(spec["tables"][t], [])
        with interpreting("JSON rows of %s" % t):
            if verbose:
                require(all(isinstance(r, dict) and sorted(r) == sorted(fs) for r in js[t]), "verbose rows of %s: %s", t, js[t])
            else:
                require(all(isinstance(r, list) and len(r) == len(fs) for r in js[t]), "rows of %s: %s", t, js[t])
            got[t] = [[r[f] for f in fs] if verbose else r for r in js[t]]
        want[t] = [[stored(spec, t, f, v) for f, v in zip(fs, r)] for r in data[t]]
    require_eq(gen.diff_content(want, got), None, "stored values (%s)" % what)


def check_td(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    put = {t: [[numpied(c) for c in r] for r in rows] for t, rows in data.items()} if case["numpy"] else data
    dat = gen.make_td(tdf, spec, put)
    path = "" if case["string"] else os.path.join(ctx.tmpdir(), "x.json")
    kw = {"verbose": {"verbose": True}, "pandas": {"to_pandas": True}, "plain": {}}[case["mode"]]
    text = tdf.json.write_file(dat, path, **kw)
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the data in memory after write_file")
    if path:
        require(text is None, "write_file to a file returned %s", type(text).__name__)
        with open(path) as f:
            text = f.read()
    js = json.loads(text)
    check_file(spec, data, js, case["mode"] == "verbose", case["mode"])
    fp = case["from_pandas"] and case["mode"] != "verbose"
    if fp and any(isinstance(c, str) and c.lower() == "none" for rows in data.values() for r in rows for c in r):
        fp = False
    kw = {"freeze_it": True} if case["freeze"] else {}
    if fp:
        kw["from_pandas"] = True
    back = tdf.json.create_tic_dat(path or text, **kw)
    msgs = []
    require(tdf.good_tic_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    got = gen.td_content(spec, back)
    require_eq(gen.diff_content(data, got), None, "data read back (%s)" % kw)
    if case["mode"] != "pandas" and not fp and not case["numpy"]:
        for t, rows in data.items():
            a, b = [sorted([[typed(c) if not isinstance(c, datetime.datetime) and not (isinstance(c, float) and abs(c) == INF) else gen.norm(c)
                             for c in r] for r in x], key=repr) for x in (rows, got[t])]
            if not (isinstance(spec["inf"], (int, float)) or (spec["munge"] and t in spec["types"])):
                require_eq(b, a, "types of the values of %s" % t)
    if case["freeze"]:
        for t in data:
            if data[t] and spec["tables"][t][0]:
                try:
                    getattr(back, t).clear()
                    froze = False
                except Exception:
                    froze = True
                require(froze, "freeze_it: %s could be cleared", t)
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label(case["mode"] + (" from pandas" if fp else ""))
        if any(isinstance(c, float) and abs(c) == INF for rows in data.values() for r in rows for c in r):
            ctx.label("infinities, flag %s" % spec["inf"])


NOT_NONE = TEXT.filter(lambda s: s.lower() != "none")


@st.composite
def _pd(draw):
    layout = draw(st.sampled_from(["lists", "lists", "pd"]))
    if layout == "pd":
        keys = {"int": st.integers(-2, 9), "str": SAFE_TEXT, "float": st.sampled_from([0.5, 1.25, -3.0, 0.1])}
        data = {"int": st.integers(-900, 900), "str": SAFE_TEXT, "float": st.sampled_from([0.5, 0.1, 3.0, 12.5, -7.25]), "bool": st.booleans(),
                "null": st.sampled_from([None, 1.5, 2]), "strnull": st.one_of(st.none(), SAFE_TEXT)}
        text = st.one_of(SAFE_TEXT, st.sampled_from(["1", "007", "1.50", "true", "2020-01-01", "1e5"]))
    else:
        keys, data, text = dict(KEYS, str=NOT_NONE), dict(DATA, str=NOT_NONE, strnull=st.one_of(st.none(), NOT_NONE)), NOT_NONE
    spec, cells = io_spec(draw, keys, data, text, datetime_ok=True)
    data = within_flag(spec, draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5)))
    if layout == "lists":
        data = small_numbers(spec, data)
    return {"spec": spec, "data": data, "layout": layout, "string": draw(st.booleans()), "pretty": draw(st.booleans()),
            "orient": draw(st.sampled_from(["split", "split", "columns"] + (["index"] if all(data.values()) else []))),
            "keep_index": draw(st.booleans()), "numpy": draw(st.booleans()), "extra": draw(st.booleans()), "indent": draw(st.sampled_from([None, 0, 2])),
            "sort_keys": draw(st.booleans())}


def check_pd(case, ctx):
    import pandas as pd
    from .p14 import pretty
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    for t in data:
        df = getattr(dat, t)
        if case["numpy"]:
            for f in list(df.columns):
                df[f] = pd.Series([numpied(c) for c in df[f]], dtype=object, index=df.index)
    if case["extra"]:
        gen.dress(dat, spec)
    path = "" if case["string"] else os.path.join(ctx.tmpdir(), "x.json")
    kw = {}
    if case["layout"] == "lists":
        text = pdf.json.write_file(dat, path)
    else:
        wkw = {"orient": case["orient"], "index": case["keep_index"], "indent": case["indent"], "sort_keys": case["sort_keys"],
               "case_space_table_names": case["pretty"]}
        text = pdf.json.write_file_pd(dat, path, **wkw)
        kw = {"orient": case["orient"]}
    require_eq(gen.diff_content(data, gen.pd_content(spec, dat)), None, "the data in memory after the write")
    if path:
        require(text is None, "write to a file returned %s", type(text).__name__)
        with open(path) as f:
            text = f.read()
    js = json.loads(text)
    if case["layout"] == "lists":
        check_file(spec, data, js, False, "lists")
    elif case["pretty"]:
        require_eq(sorted(js), sorted(map(pretty, spec["tables"])), "tables in the JSON")
    else:
        require_eq(sorted(js), sorted(spec["tables"]), "tables in the JSON")
    back = pdf.json.create_pan_dat(path or text, **kw)
    msgs = []
    require(pdf.good_pan_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    require_eq({t: list(getattr(back, t).columns) for t in data}, {t: sum(spec["tables"][t], []) for t in data}, "columns read back")
    got = gen.pd_content(spec, back)
    want = data
    if case["layout"] == "pd":
        def r9(c):
            return round(c, 8) if isinstance(c, float) and abs(c) < INF else c
        got, want = [{t: [[r9(c) for c in r] for r in rows] for t, rows in x.items()} for x in (got, data)]
    require_eq(gen.diff_content(want, got), None, "data read back (%s)" % case["layout"])
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label(case["layout"] if case["layout"] == "lists" else "pd %s" % case["orient"])


# ---------------------------------------------------------------- malformed
@st.composite
def _bad(draw):
    spec = {"tables": draw(gen.tables(1, 3)), "fks": []}
    data = draw(gen.data_for(spec, lambda t, f: st.integers(0, 9), 1, 4))
    t = draw(st.sampled_from(sorted(spec["tables"])))
    how = draw(st.sampled_from(["long", "short", "scalar row", "unknown field", "cut", "scalar table", "null table", "text table", "list top", "scalar top",
                                "duplicate table", "dict of lists", "text row", "missing file", "no json"]))
    return {"spec": spec, "data": data, "t": t, "how": how, "i": draw(st.integers(0, 3)), "verbose": draw(st.booleans()), "string": draw(st.booleans()),
            "cls": draw(st.sampled_from(["T", "T", "P"])), "cut": draw(st.floats(0, 1))}


def check_bad(case, ctx):
    spec, data, t, how = case["spec"], case["data"], case["t"], case["how"]
    fs = sum(spec["tables"][t], [])
    js = {u: [dict(zip(sum(spec["tables"][u], []), r)) if case["verbose"] else list(r) for r in rows] for u, rows in data.items()}
    i = case["i"] % len(data[t])
    row = list(data[t][i])
    one_field = len(spec["tables"][t][0]) + len(spec["tables"][t][1]) == 1
    if case["cls"] == "P" and how in ("long", "short", "unknown field", "scalar row", "text row", "duplicate table"):
        # columns that are not in the schema are ignored by PanDat; the rest is made wrong for the whole table
        if how == "short" and len(fs) > 1:
            js[t] = [r[:-1] for r in data[t]]
        elif how == "scalar row" and not one_field:
            js[t] = list(range(3))
        elif how == "duplicate table":
            js = {**{u: v for u, v in js.items() if u != t}, t: js[t], t.upper() if t.upper() != t else t.lower(): js[t]}
        else:
            ctx.label("not applicable")
            return
    elif how == "long":
        js[t][i] = row + [3]
    elif how == "short":
        if len(fs) == 1:
            return
        js[t][i] = row[:-1]
    elif how == "scalar row":
        if one_field:
            return
        js[t][i] = 5
    elif how == "text row":
        if one_field:
            return
        js[t][i] = "x" * len(fs)
    elif how == "unknown field":
        js[t][i] = dict(zip(fs, row), **{"surely not a field": 3})
    elif how == "scalar table":
        js[t] = 7
    elif how == "null table":
        js[t] = None
    elif how == "text table":
        js[t] = "abc"
    elif how == "duplicate table":
        js[t.upper() if t.upper() != t else t.lower()] = js[t]
    elif how == "dict of lists":
        if one_field:
            return
        js[t] = {"row%s" % k: list(r) + [1] for k, r in enumerate(data[t])}
    elif how == "list top":
        js = [js]
    elif how == "scalar top":
        js = 5
    text = json.dumps(js)
    if how == "cut":
        text = text[:max(1, min(len(text) - 1, int(len(text) * case["cut"])))]
    elif how == "no json":
        text = "surely {not json"
    path = text
    if not case["string"] or how == "missing file":
        path = os.path.join(ctx.tmpdir(), "bad.json")
        if how != "missing file":
            with open(path, "w") as f:
                f.write(text)
    f = gen.tdf_of(spec) if case["cls"] == "T" else gen.pdf_of(spec)
    try:
        dat = (f.json.create_tic_dat if case["cls"] == "T" else f.json.create_pan_dat)(path)
    except Exception as e:
        ctx.nontrivial(how)
        require(not isinstance(e, (MemoryError, RecursionError)), "%s: %r", how, e)
        return
    fail("malformed JSON (%s) was read without complaint as %s" % (
        how, (gen.td_content if case["cls"] == "T" else gen.pd_content)(spec, dat)))


# ---------------------------------------------------------------- generic tables
@st.composite
def _generic(draw):
    spec = {"tables": draw(gen.tables(1, 2)), "fks": []}
    data = draw(gen.data_for(spec, lambda t, f: st.integers(0, 9), 0, 3))
    cols = draw(gen.fields(1, 3))
    rows = draw(st.lists(st.tuples(*[st.sampled_from([[0, 1, 5], [2.5, 0.25], ["a", "b c", "é"]][i % 3]) for i in range(len(cols))]), min_size=1, max_size=4))
    return {"spec": spec, "data": data, "cols": cols, "rows": [list(r) for r in rows], "string": draw(st.booleans()), "pretty": draw(st.booleans()),
            "how": draw(st.sampled_from(["pd", "pd", "pd", "lists", "ticdat", "ticdat verbose"])), "orient": draw(st.sampled_from(["split", "columns"]))}


def check_generic(case, ctx):
    import pandas as pd
    from ticdat.utils import TicDatError
    spec = {**case["spec"], "tables": {**case["spec"]["tables"], "gen_t": "*"}}
    path = "" if case["string"] else os.path.join(ctx.tmpdir(), "g.json")
    df = pd.DataFrame(case["rows"], columns=case["cols"])
    if case["how"] == "pd":
        f = gen.pdf_of(spec)
        dat = gen.make_pd(f, spec, case["data"])
        dat.gen_t = df
        text = f.json.write_file_pd(dat, path, orient=case["orient"], case_space_table_names=case["pretty"])
        back = f.json.create_pan_dat(path or text, orient=case["orient"])
        require_eq(gen.diff_content(case["data"], gen.pd_content(case["spec"], back)), None, "data read back")
        require_eq([list(back.gen_t.columns), gen.norm_rows(back.gen_t.values.tolist())], [case["cols"], gen.norm_rows(case["rows"])], "generic table read back")
    else:  # these layouts do not name the columns of a generic table
        try:
            if case["how"] == "lists":
                f = gen.pdf_of(spec)
                dat = gen.make_pd(f, spec, case["data"])
                dat.gen_t = df
                f.json.write_file(dat, path)
            else:
                f = gen.tdf_of(spec)
                dat = gen.make_td(f, spec, case["data"])
                dat.gen_t = df
                f.json.write_file(dat, path, verbose="verbose" in case["how"])
        except TicDatError as e:
            require("generic" in str(e).lower(), "the message does not say why: %s", e)
            require(not path or not os.path.exists(path), "a refused write left a file")
        else:
            fail("generic tables were written in a layout that cannot hold their column names (%s)" % case["how"])
    ctx.nontrivial(case["how"])


FACETS = [
    Facet("ticdat", check_td, _td, quick=2500, rule="a non-empty table was written and read"),
    Facet("pandat", check_pd, _pd, quick=1500, rule="a non-empty table was written and read"),
    Facet("malformed", check_bad, _bad, quick=1500, rule="malformed JSON was given and refused"),
    Facet("generic", check_generic, _generic, quick=300, rule="a generic table was read back, or refused where the layout cannot hold it"),
]
