import datetime, os
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p14 import pretty
from .p17 import DT, numpied, stored
from .p18 import NUMS, NA_WORDS, looks_number, rows_differ, pd_field, clean_data, spec_of

TECHNIQUE = ("write/read round trip over random schemas, rules, defaults, flags and data for .xlsx and .xls, the files examined with openpyxl and xlrd; "
             "hand-made sheets with offsets, gaps and trailing rows compared with a row-by-row model")
NOTE = ("Not generated, because Excel or its libraries cannot hold it: control characters, {=...} text, empty text in .xlsx (it reads as null), booleans in .xls, "
        "nulls in .xls fields that do not admit them, integers beyond 2**53, microseconds of PanDat dates (an Excel date is good to the millisecond), all-null last rows; numbers compare up to 1e-12.")
INF = gen.INF
HOSTILE = ["a", "b", "hot dog", "é", "日本", "x,y", '"', "it's", "'q", "a\nb", "\t", "back\\slash", " lead", "trail ", "\U0001f600", "=a", "=1+2", "=SUM(A1)", "http://x y", "mailto:a@b",
           "internal:S!A1", "external:c", "@x", "+x", "-", "#N/A", "#REF!", "TRUE", "true", "None", "nan", "NA", "_x0041_", "x" * 300, "http://" + "x" * 2200, "<a>&amp;", "2020-01-01"]
NUMERIC = ["1", "007", "1.50", "1e5", " 2", "+3", "0", "1_000"]
_t = st.one_of(st.sampled_from(HOSTILE), st.text(alphabet="ab1,=;'\"\\ \n\té[]-:&<", min_size=1, max_size=6))
ok_text = lambda s: s and s.lower() not in ("inf", "-inf") and not s.startswith("{=")
ANY_TEXT = st.one_of(_t, st.sampled_from(NUMERIC)).filter(ok_text)
TEXT = _t.filter(lambda s: ok_text(s) and not looks_number(s))


def td_field_for(ext):
    xls = ext == ".xls"

    @st.composite
    def td_field(draw, is_pk, flag):
        some_inf = [] if flag is None else [INF, -INF]
        empty = [st.just("")] if xls else []
        flags = [] if xls else [st.booleans()]
        kinds = ["num", "text", "text", "both", "date", "int", "floor", "raw"] + ([] if is_pk else ["numnull", "textnull", "none default", "default"])
        k = draw(st.sampled_from(kinds))
        if k == "num":
            return [[True, True, True, -INF, INF, False, [], flag is None, False], "unset", st.one_of(NUMS, st.sampled_from(some_inf + [0]))]
        if k == "numnull":
            return [[True, True, True, -INF, INF, False, [], True, False], "unset", st.one_of(NUMS, st.none())]
        if k == "text":
            return [[False, True, True, 0, INF, False, "*", False, False], "unset", st.one_of(ANY_TEXT, *empty)]
        if k == "textnull":
            return [[False, True, True, 0, INF, False, "*", True, False], "unset", st.one_of(ANY_TEXT, st.none())]
        if k == "both":
            return [[True, True, True, -INF, INF, False, "*", True, False], "unset", st.one_of(NUMS, TEXT, st.none() if not is_pk else TEXT)]
        if k == "date":
            return [[True, True, True, 0, INF, False, [], not is_pk, True], "unset", st.sampled_from(DT if is_pk else DT + [None])]
        if k == "int":
            return [[True, True, True, -1e9, 1e9, True, [], False, False], "unset", st.integers(-900, 900)]
        if k == "floor":
            return [[True, True, True, -2, INF, False, [], False, False], "unset", st.one_of(st.integers(-2, 900), st.sampled_from([INF, 0.25]))]
        if k == "raw":
            return [None, "unset", st.one_of(ANY_TEXT, NUMS, *empty, *flags)]
        if k == "none default":
            return [None, None, st.one_of(ANY_TEXT, NUMS, st.none(), *flags)]
        return [None, draw(st.sampled_from(["d", 2.5, ""])), st.one_of(ANY_TEXT, NUMS, st.sampled_from(some_inf + [0]), *empty)]
    return td_field


def generic_table(draw):
    n = draw(st.integers(0, 3))
    return [["c1", "c 2"], [[draw(st.integers(0, 3)), draw(st.sampled_from(["x", "y;z", "it's"]))] for _ in range(n)]]


def no_null_tail(spec, data):
    for t, rows in data.items():
        fs = sum(spec["tables"][t], [])
        while rows and all(stored(spec, t, f, c) in (None, "") for f, c in zip(fs, rows[-1])):
            rows.pop()


LONG = "a_table_whose_name_is_longer_than_a_sheet_name"


@st.composite
def _td(draw):
    ext = draw(st.sampled_from([".xlsx", ".xlsx", ".xls"]))
    spec, cells = spec_of(draw, td_field_for(ext))
    if draw(st.integers(0, 7)) == 0:
        t = draw(st.sampled_from(sorted(spec["tables"])))
        spec["tables"] = {LONG if u == t else u: v for u, v in spec["tables"].items()}
        for part in ("types", "defaults"):
            spec[part] = {LONG if u == t else u: v for u, v in spec[part].items()}
        cells = {(LONG if u == t else u, f): c for (u, f), c in cells.items()}
    data = clean_data(draw, spec, cells)
    no_null_tail(spec, data)
    spec["xlsx"] = draw(st.sampled_from(["prune", "ignore"]))
    if draw(st.integers(0, 3)) == 0:
        spec["gens"] = [t for t, v in spec["tables"].items() if not v[0] and draw(st.booleans())]
    if spec.get("gens"):  # reading infinities isn't implemented for generator tables
        keep = lambda r: ext == ".xls" or spec["inf"] != "N/A" or not any(isinstance(c, float) and abs(c) == INF for c in r)
        data = {t: [r for r in rows if keep(r)] for t, rows in data.items()}
    generic = generic_table(draw) if ext == ".xlsx" and not spec.get("gens") and draw(st.integers(0, 4)) == 0 else None
    if generic:
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "ext": ext, "freeze": draw(st.booleans()), "generic": generic, "overwrite": draw(st.booleans()),
            "numpy": draw(st.integers(0, 3)) == 0, "pretty": draw(st.booleans()), "shuffle": draw(st.booleans())}


def stamped(v):
    import pandas as pd
    return pd.Timestamp(v) if isinstance(v, datetime.datetime) else numpied(v) if not isinstance(v, bool) else __import__("numpy").bool_(v)


def sheets_of(path):
    """{sheet name: rows of cell values}"""
    if path.endswith(".xls"):
        import xlrd
        book = xlrd.open_workbook(path)
        return {s.name: [list(s.row_values(i)) for i in range(s.nrows)] for s in book.sheets()}
    import openpyxl
    book = openpyxl.load_workbook(path)
    return {s.title: [list(r) for r in s.iter_rows(values_only=True)] for s in book.worksheets}


def check_file(path, spec, data, name, native_dates=False):
    got = sheets_of(path)
    require_eq(sorted(n for n in got if n != name("gen_t")), sorted(name(t)[:30] for t in data), "sheets of the file")
    for t, rows in data.items():
        fs = sum(spec["tables"][t], [])
        cells = got[name(t)[:30]]
        require_eq(cells[:1], [fs], "header of %s" % t)
        want = []
        for r in rows:
            w = []
            for f, v in zip(fs, r):
                if not (native_dates and isinstance(v, datetime.datetime)):
                    v = stored(spec, t, f, v)
                if isinstance(v, float) and abs(v) == INF and path.endswith(".xlsx"):
                    v = "inf" if v > 0 else "-inf"
                w.append(None if v == "" else int(v) if isinstance(v, bool) and path.endswith(".xls") else v)
            want.append(w)
        found = [[None if c == "" else c for c in (r + [None] * len(fs))[:len(fs)]] for r in cells[1:]]
        require_eq(rows_differ(want, found), None, "cells of %s" % t)


def shuffle_sheets(path):
    import openpyxl
    book = openpyxl.load_workbook(path)
    book._sheets.reverse()
    extra = book.create_sheet("Some other sheet", 0)
    extra["A1"] = "whatever"
    book.save(path)


def check_td(case, ctx):
    import pandas as pd
    spec, data, ext = case["spec"], case["data"], case["ext"]
    tdf = gen.tdf_of(spec)
    gt = case["generic"]
    extra = {"gen_t": pd.DataFrame(gt[1], columns=gt[0])} if gt else {}
    put = {t: [[stamped(c) for c in r] for r in rows] for t, rows in data.items()} if case["numpy"] else data
    dat = tdf.TicDat(**{t: gen.td_table(spec, t, rows) for t, rows in put.items()}, **extra)
    path = os.path.join(ctx.tmpdir(), "x" + ext)
    kw = {"case_space_sheet_names": True} if case["pretty"] else {}
    tdf.xls.write_file(dat, path, **kw)
    if case["overwrite"]:
        tdf.xls.write_file(dat, path, allow_overwrite=True, **kw)
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the data in memory after the write")
    check_file(path, spec, data, pretty if case["pretty"] else (lambda t: t))
    if ext == ".xlsx" and case["shuffle"]:
        shuffle_sheets(path)
        ctx.label("sheets reordered")
    kw = {"freeze_it": True} if case["freeze"] else {}
    if spec.get("gens"):
        kw["treat_inf_as_infinity"] = False
    back = tdf.xls.create_tic_dat(path, **kw)
    msgs = []
    require(tdf.good_tic_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    got = gen.td_content(spec, back)
    for t, rows in data.items():
        require_eq(rows_differ(rows, got[t]), None, "data of %s read back" % t)
    if gt and gt[1]:
        g = back.gen_t
        require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [gt[0], gen.norm_rows(gt[1])], "generic table read back")
        ctx.label("generic")
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label(ext)
        if spec.get("gens"):
            ctx.label("generator tables")
        if LONG in data:
            ctx.label("long sheet name")


# ---------------------------------------------------------------- PanDat
@st.composite
def _pd(draw):
    spec, cells = spec_of(draw, pd_field)
    data = clean_data(draw, spec, cells)
    for t in data:
        data[t] = [r for r in data[t] if not any(isinstance(c, str) and (c.lower() in ("inf", "-inf") or c.startswith("{=") or "\r" in c) for c in r)]
        if draw(st.integers(0, 2)) == 0:  # what Excel libraries like to interpret
            for f in spec["types"].get(t, {}):
                if spec["types"][t][f][6] == "*" and not spec["types"][t][f][0]:
                    j = sum(spec["tables"][t], []).index(f)
                    if j >= len(spec["tables"][t][0]):
                        for r in data[t]:
                            r[j] = draw(st.sampled_from(HOSTILE).filter(lambda s: s not in NA_WORDS))
    data = {t: [[c.replace(microsecond=c.microsecond // 1000 * 1000) if isinstance(c, datetime.datetime) else c for c in r]
                for r in rows] for t, rows in data.items()}  # an Excel date is good to the millisecond
    no_null_tail(spec, data)
    spec["xlsx"] = draw(st.sampled_from(["prune", "ignore"]))
    generic = generic_table(draw) if draw(st.integers(0, 4)) == 0 else None
    if generic:
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "pretty": draw(st.booleans()), "generic": generic, "extra": draw(st.booleans()), "shuffle": draw(st.booleans())}


def check_pd(case, ctx):
    import pandas as pd
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    gt = case["generic"]
    if gt:
        dat.gen_t = pd.DataFrame(gt[1], columns=gt[0])
    if case["extra"]:
        gen.dress(dat, spec)
    path = os.path.join(ctx.tmpdir(), "x.xlsx")
    pdf.xls.write_file(dat, path, **({"case_space_sheet_names": True} if case["pretty"] else {}))
    require_eq(gen.diff_content(data, gen.pd_content(spec, dat)), None, "the data in memory after the write")
    check_file(path, spec, data, pretty if case["pretty"] else (lambda t: t), native_dates=True)
    if case["shuffle"]:
        shuffle_sheets(path)
    back = pdf.xls.create_pan_dat(path)
    msgs = []
    require(pdf.good_pan_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    require_eq({t: list(getattr(back, t).columns) for t in data}, {t: sum(spec["tables"][t], []) for t in data}, "columns read back")
    got = gen.pd_content(spec, back)
    for t in data:
        require_eq(rows_differ(data[t], got[t]), None, "data of %s read back" % t)
    if gt and gt[1]:
        g = back.gen_t
        require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [gt[0], gen.norm_rows(gt[1])], "generic table read back")
        ctx.label("generic")
    if any(data.values()):
        ctx.nontrivial("rows")


# ---------------------------------------------------------------- hand-made sheets
@st.composite
def _rows(draw):
    ext = draw(st.sampled_from([".xlsx", ".xlsx", ".xls"]))
    pan = ext == ".xlsx" and draw(st.integers(0, 3)) == 0
    tabs = draw(gen.tables(1, 3))
    spec = {"tables": tabs, "fks": [], "xlsx": draw(st.sampled_from(["prune", "ignore"])) if not pan else "prune", "types": {}, "defaults": {}}
    grids, header = {}, pan or draw(st.integers(0, 2)) > 0
    for t, (pks, dfs) in tabs.items():
        fs = pks + dfs
        g = {"offset": 0 if pan else draw(st.sampled_from([0, 0, 1, 2, 3])), "rows": [], "cols": draw(st.permutations(fs)) if header else fs,
             "extra": header and draw(st.booleans()), "tail": draw(st.sampled_from([0, 0, 1, 3])), "absent": draw(st.integers(0, 9)) == 0}
        keys = set()
        for i in range(draw(st.integers(0, 6))):
            if draw(st.integers(0, 4)) == 0 and (not pks or "gap" not in keys):
                keys.add("gap")
                g["rows"].append([None] * len(fs))
                continue
            k = [draw(st.sampled_from([i, "k%d" % i, i + 0.5]))] + [draw(st.integers(0, 2)) for _ in pks[1:]] if pks else []
            row = k + [draw(st.one_of(st.integers(-5, 9), st.sampled_from(["a", "b c", "x1", 0.5, None]))) for _ in dfs]
            g["rows"].append(row)
        if pks and "gap" in keys and spec["xlsx"] == "ignore":
            g["tail"] = 0
        if pks and spec["xlsx"] == "ignore":
            g["tail"] = min(g["tail"], 1)
        if not header:  # such a sheet has the columns its first row has, and openpyxl finds one row in an empty sheet
            if g["rows"]:
                g["rows"][0] = ["top"] + [1] * (len(fs) - 1)
            else:
                g["absent"] = True
        grids[t] = g
    return {"spec": spec, "grids": grids, "ext": ext, "pan": pan, "header": header, "freeze": draw(st.booleans())}


def make_book(case, path):
    """writes the sheets; trailing rows are made of formatted cells without a value"""
    import openpyxl, xlwt
    grid = {}
    for t, g in case["grids"].items():
        if g["absent"]:
            continue
        fs = sum(case["spec"]["tables"][t], [])
        rows = [["junk %d" % i] * len(fs) for i in range(g["offset"])]
        if case["header"]:
            rows.append(list(g["cols"]) + (["not a field"] if g["extra"] else []))
        for r in g["rows"]:
            d = dict(zip(fs, r))
            blank = all(c is None for c in r)
            rows.append([d[f] for f in g["cols"]] + ([None if blank else 77] if g["extra"] else []))
        grid[t] = (rows, g["tail"], len(fs))
    grid["zzz other"] = ([["x"]], 0, 1)
    if path.endswith(".xls"):
        book = xlwt.Workbook()
        style = xlwt.easyxf("font: bold on")
        for t, (rows, tail, n) in grid.items():
            s = book.add_sheet(t)
            for i, r in enumerate(rows):
                for j, c in enumerate(r):
                    if c is not None:
                        s.write(i, j, c)
            for i in range(tail):
                s.write(len(rows) + i, 0, None, style)
        book.save(path)
        return
    book = openpyxl.Workbook()
    book.remove(book.active)
    for t, (rows, tail, n) in grid.items():
        s = book.create_sheet(t)
        for i, r in enumerate(rows):
            for j, c in enumerate(r):
                if c is not None:
                    s.cell(i + 1, j + 1, c)
        for i in range(tail):
            s.cell(len(rows) + i + 1, n).number_format = "0.00"
    book.save(path)


def check_rows(case, ctx):
    spec = case["spec"]
    path = os.path.join(ctx.tmpdir(), "x" + case["ext"])
    make_book(case, path)
    want = {}
    for t, g in case["grids"].items():
        rows = [list(r) for r in g["rows"]]
        if case["ext"] == ".xls" or spec["xlsx"] == "prune":
            while rows and all(c is None for c in rows[-1]):
                rows.pop()
        else:
            if not g["tail"]:
                while rows and all(c is None for c in rows[-1]):
                    rows.pop()  # nothing of these rows is in the file
            rows += [[None] * len(r0) for r0 in [sum(spec["tables"][t], [])] for _ in range(g["tail"])]
            ctx.label("trailing rows kept" if g["tail"] else "no trailing rows")
        if case["ext"] == ".xls":
            rows = [["" if c is None else c for c in r] for r in rows]
        want[t] = [] if g["absent"] else rows
    if case["pan"]:
        pdf = gen.pdf_of(spec)
        back = pdf.xls.create_pan_dat(path)
        got = gen.pd_content(spec, back)
        ctx.label("pandat")
    else:
        tdf = gen.tdf_of(spec)
        kw = {} if case["header"] else {"headers_present": False}
        offs = {t: g["offset"] for t, g in case["grids"].items() if g["offset"]}
        if offs:
            kw["row_offsets"] = offs
            ctx.label("row offsets")
        if case["freeze"]:
            kw["freeze_it"] = True
        back = tdf.xls.create_tic_dat(path, **kw)
        got = gen.td_content(spec, back)
    for t in want:
        require_eq(rows_differ(want[t], got[t]), None, "rows of %s" % t)
    if any(want.values()):
        ctx.nontrivial("rows")
        ctx.label(case["ext"])
        if any(all(c in (None, "") for c in r) for rows in want.values() for r in rows):
            ctx.label("empty row kept")


FACETS = [
    Facet("ticdat", check_td, _td, quick=1100, rule="a non-empty table was written and read"),
    Facet("pandat", check_pd, _pd, quick=500, rule="a non-empty table was written and read"),
    Facet("rows", check_rows, _rows, quick=900, rule="some row was read from a hand-made sheet"),
]
