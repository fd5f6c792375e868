import contextlib, io, json, os
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames
from .p10 import native

TECHNIQUE = "naive occurrence count over random row multisets, compared with every reader's find_duplicates, PanDat find_duplicates for each keep, and the TicDat constructor's duplicate policy"
NOTE = ("Files are written by this check (json, openpyxl, xlwt, sqlite3, csv) so that they hold duplicates; key values survive the format's own coercions. "
        "Row offsets, missing headers, reordered and differently spelled names included.")
KEYS = {"int": st.integers(0, 3), "str": st.sampled_from(["a", "b", "C", "é", "x y"]), "float": st.sampled_from([0.5, 1.5]),
        "mixed": st.sampled_from([1, 2, "a", "b"])}


@st.composite
def _base(draw, kinds=("int", "str", "float", "mixed")):
    tabs = draw(gen.tables(1, 3, max_pk=3, max_df=2))
    spec = {"tables": tabs, "types": {}}
    cells, typed = {}, draw(st.booleans())
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            k = draw(st.sampled_from(kinds))
            cells[t, f] = KEYS[k]
            if f in pks and (typed or k != "str"):
                spec["types"].setdefault(t, {})[f] = [k != "str", True, False, -gen.INF, gen.INF, k == "int",
                                                      "*" if k in ("str", "mixed") else [], False, False]
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 8, unique_pk=False))
    return {"spec": spec, "data": data}


def holes(draw, case):
    """keys without a value"""
    for t, rows in case["data"].items():
        n = len(case["spec"]["tables"][t][0])
        for r in rows:
            if n and draw(st.integers(0, 2)) == 0:
                r[draw(st.integers(0, n - 1))] = None


def counts(spec, data):
    out = {}
    for t, (pks, _) in spec["tables"].items():
        if not pks:
            continue
        c = {}
        for r in data[t]:
            k = tuple(gen.norm(x) for x in r[:len(pks)])
            c[k] = c.get(k, 0) + 1
        c = {k: n for k, n in c.items() if n > 1}
        if c:
            out[t] = c
    return out


def read(spec, res):
    with interpreting("duplicates"):
        out = {}
        for t, d in res.items():
            n = len(spec["tables"][t][0])
            out[t] = {}
            for k, c in d.items():
                out[t][tuple(gen.norm(native(x)) for x in (k if n > 1 else (k,)))] = c
        return out


def pretty(t):
    return " ".join(w[:1].upper() + w[1:] for w in t.split("_"))


@st.composite
def _file_case(draw):
    case = draw(_base())
    case["fmt"] = draw(st.sampled_from(["json", "json", "csv", "sql", "xlsx", "xls", "json pandas"]))
    case["seed"] = draw(st.integers(0, 10 ** 6))
    case["names"] = draw(st.sampled_from(["same", "upper", "pretty"]))
    case["missing"] = draw(st.integers(0, 4)) == 0
    case["rowform"] = draw(st.sampled_from(["list", "dict"]))
    case["as_string"] = draw(st.booleans())
    case["headers"] = draw(st.integers(0, 3)) > 0
    case["offset"] = draw(st.sampled_from([0, 0, 1, 3]))
    case["extra"] = draw(st.booleans())
    if case["fmt"] in ("json", "sql") and draw(st.booleans()):
        holes(draw, case)
    return case


def check_files(case, ctx):
    import random
    spec, data, fmt = case["spec"], dict(case["data"]), case["fmt"]
    rnd = random.Random(case["seed"])
    if case["missing"]:
        gone = sorted(data)[0]
        data[gone] = []
    else:
        gone = None
    d = ctx.tmpdir()
    tdf = gen.tdf_of(spec)
    rename = {"same": lambda t: t, "upper": str.upper, "pretty": pretty}[case["names"]]
    cols = {t: sum(v, []) for t, v in spec["tables"].items()}
    order = {t: rnd.sample(range(len(c)), len(c)) if fmt not in ("json",) and case["headers"] else list(range(len(c)))
             for t, c in cols.items()}
    if fmt in ("xls", "xlsx") and case["seed"] % 3 == 0:  # data that repeats the header
        data = {t: rs + [list(cols[t])] if t != gone else rs for t, rs in data.items()}
    rows = {t: [[r[j] for j in order[t]] for r in data[t]] for t in data if t != gone}
    hdr = {t: [cols[t][j] for j in order[t]] for t in cols}
    kw = {}
    if fmt == "json":
        j = {rename(t): [dict(zip(hdr[t], r)) if case["rowform"] == "dict" else r for r in rs] for t, rs in rows.items()}
        if case["extra"]:
            j["some other table"] = [[1, 2], [1, 2]]
        path = json.dumps(j)
        if not case["as_string"]:
            path = os.path.join(d, "f.json")
            json.dump(j, open(path, "w"))
        res = tdf.json.find_duplicates(path)
    elif fmt == "json pandas":
        j = {t: {"columns": hdr[t], "data": rs} for t, rs in rows.items()}
        if all(set(c) == {"columns", "data"} for c in cols.values()):
            return
        path = json.dumps(j)
        kw = {"from_pandas": True} if case["as_string"] or not j else {}
        res = tdf.json.find_duplicates(path, **kw)
    elif fmt == "csv":
        import csv
        for t, rs in rows.items():
            with open(os.path.join(d, rename(t) + ".csv"), "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f)
                if case["headers"]:
                    w.writerow([h.upper() for h in hdr[t]] if case["names"] == "upper" else hdr[t])
                w.writerows(rs)
        res = tdf.csv.find_duplicates(d, headers_present=case["headers"], encoding="utf-8")
    elif fmt == "sql":
        import sqlite3
        path = os.path.join(d, "f.db")
        with contextlib.closing(sqlite3.connect(path)) as con:
            for t, rs in rows.items():
                con.execute("create table [%s] (%s)" % (rename(t), ", ".join("[%s]" % h for h in hdr[t])))
                con.executemany("insert into [%s] values (%s)" % (rename(t), ",".join("?" * len(hdr[t]))), rs)
            con.execute("create table [else] (a)")
            con.commit()
        res = tdf.sql.find_duplicates(path)
    else:
        path = os.path.join(d, "f." + fmt)
        top = {t: case["offset"] if rnd.random() < 0.5 and (rows[t] or case["headers"]) else 0 for t in rows}
        grid = {rename(t): [rs[0] if rs and case["seed"] % 5 == 0 else ["a title" if case["seed"] % 2 else None] + [None] * 3] * top[t] + ([hdr[t]] if case["headers"] else []) + rs
                for t, rs in rows.items()}
        grid["some other sheet"] = [["x"]]
        write_book(path, grid)
        offs = {t: n for t, n in top.items() if n}
        if offs:
            kw["row_offsets"] = offs
        res = tdf.xls.find_duplicates(path, headers_present=case["headers"], **kw)
    require_eq(read(spec, res), counts(spec, data), "duplicates of the %s file" % fmt)
    if counts(spec, data):
        ctx.nontrivial("duplicates")
        ctx.label(fmt)
    elif any(data.values()):
        ctx.nontrivial("no duplicates")


def write_book(path, grid):
    if path.endswith(".xls"):
        import xlwt
        book = xlwt.Workbook()
        for name, rows in grid.items():
            sheet = book.add_sheet(name[:31])
            for i, r in enumerate(rows):
                for j, c in enumerate(r):
                    if c is not None:
                        sheet.write(i, j, c)
        book.save(path)
    else:
        import openpyxl
        book = openpyxl.Workbook()
        book.remove(book.active)
        for name, rows in grid.items():
            sheet = book.create_sheet(name[:31])
            for i, r in enumerate(rows):
                for j, c in enumerate(r):
                    if c is not None:
                        sheet.cell(i + 1, j + 1, c)
        book.save(path)


@st.composite
def _pd_case(draw):
    case = draw(_base())
    spec = case["spec"]
    spec["types"] = {}
    for t in case["data"]:
        n = len(spec["tables"][t][0])
        if draw(st.integers(0, 2)) == 0:
            for r in case["data"][t]:
                j = draw(st.integers(0, len(r) - 1))
                if draw(st.booleans()):
                    r[j] = None
    case["keep"] = draw(st.sampled_from(["first", "last", False]))
    case["index"] = draw(st.sampled_from(["range", "reversed", "same", "str"]))
    case["extra"] = draw(st.booleans())
    return case


def check_pd(case, ctx):
    spec = case["spec"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, case["data"])
    odd_frames(spec, pdf, dat, case["index"], case["extra"])
    keep = case["keep"]
    want = {}
    for t, (pks, _) in spec["tables"].items():
        keys = [tuple(gen.norm(x) for x in r[:len(pks)]) for r in case["data"][t]]
        flags = [bool(pks) and ((k in keys[:i]) if keep == "first" else (k in keys[i + 1:]) if keep == "last"
                                else keys.count(k) > 1) for i, k in enumerate(keys)]
        if any(flags):
            want[t] = flags
    got = pdf.find_duplicates(dat, keep=keep, as_table=False)
    require_eq({t: list(map(bool, v)) for t, v in got.items()}, want, "duplicate flags (keep=%s)" % keep)
    for t, v in got.items():
        require_eq(list(v.index), list(getattr(dat, t).index), "index of the flags of %s" % t)
    res = pdf.find_duplicates(dat, keep=keep) if keep != "first" else pdf.find_duplicates(dat)
    require_eq(set(res), set(want), "tables with duplicates")
    for t, v in res.items():
        df = getattr(dat, t)
        require_eq(list(v.columns), list(df.columns), "columns of the duplicated rows of %s" % t)
        rows = [r for r, b in zip(df.itertuples(index=True, name=None), want[t]) if b]
        require_eq(gen.norm_rows(v.itertuples(index=True, name=None)), gen.norm_rows(rows), "duplicated rows of %s" % t)
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.pd_rows(spec, dat, t)), gen.norm_rows(case["data"][t]), "%s after the search" % t)
    if want:
        ctx.nontrivial("duplicates")
    elif any(case["data"].values()):
        ctx.nontrivial("no duplicates")


@st.composite
def _ctor_case(draw):
    case = draw(_base())
    case["spec"]["types"] = {}
    case["mode"] = draw(st.sampled_from([None, "assert", "warn", "ignore"]))
    case["forms"] = {t: draw(st.sampled_from(["lists", "tuples", "dicts", "frame"])) for t in case["spec"]["tables"]}
    case["clone"] = draw(st.booleans())
    case["pandat"] = draw(st.integers(0, 3)) == 0
    return case


def check_ctor(case, ctx):
    import pandas as pd
    spec, data, mode = case["spec"], case["data"], case["mode"]
    pan = case.get("pandat")  # a TicDat made from a PanDat
    tdf = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    if mode:
        tdf.set_duplicates_ticdat_init(mode)
    if case["clone"]:
        tdf = tdf.clone()
    require_eq(tdf.duplicates_ticdat_init, mode or "assert", "duplicates_ticdat_init")
    args = {}
    for t, rows in data.items():
        cols = sum(spec["tables"][t], [])
        args[t] = {"lists": lambda: [list(r) for r in rows], "tuples": lambda: [tuple(r) for r in rows],
                   "dicts": lambda: [dict(zip(cols, r)) for r in rows],
                   "frame": lambda: pd.DataFrame([list(r) for r in rows], columns=cols)}[case["forms"][t]]()
    for t, (pks, dfs) in spec["tables"].items():
        if case["forms"][t] in ("lists", "tuples") and len(pks) == 1 and not dfs:
            args[t] = [r[0] for r in data[t]]
    dups = counts(spec, data)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            dat = tdf.copy_to_tic_dat(tdf.PanDat(**{t: pd.DataFrame([list(r) for r in rows], columns=sum(spec["tables"][t], [])) for t, rows in data.items()})) \
                if pan else tdf.TicDat(**args)
            raised = False
        except AssertionError as e:
            raised = True
            require(all(t in str(e) for t in dups), "the error does not name the tables with duplicates: %s", e)
    require_eq(raised, bool(dups) and (mode or "assert") == "assert", "construction rejected")
    if not raised:
        require_eq("Warning" in out.getvalue(), bool(dups) and mode == "warn", "warning printed")
        for t, (pks, dfs) in spec["tables"].items():
            rows = gen.td_rows(spec, dat, t)
            if not pks:
                require_eq(gen.norm_rows(rows), gen.norm_rows(data[t]), "keyless rows of %s" % t)
            else:
                n = len(pks)
                require_eq(sorted({repr(r[:n]) for r in gen.norm_rows(rows)}),
                           sorted({repr(r[:n]) for r in gen.norm_rows(data[t])}), "keys of %s" % t)
                for r in gen.norm_rows(rows):
                    require(r in gen.norm_rows(data[t]), "row %s of %s is none of the rows given", r, t)
    ctx.nontrivial("duplicates" if dups else "no duplicates")


FACETS = [
    Facet("files", check_files, _file_case, quick=4000, rule="rows exist"),
    Facet("pandat", check_pd, _pd_case, quick=3000, rule="rows exist"),
    Facet("constructor", check_ctor, _ctor_case, quick=3000, rule="every case"),
]
