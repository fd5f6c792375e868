import json, os, sqlite3
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting
from .p14 import pretty

TECHNIQUE = ("stateful property-based testing (Hypothesis): histories of writes by both factories in every format into one directory tree holding files, directories, databases and bystanders, "
             "each step compared with the tree before it and with the same write into an empty directory")
NOTE = ("JSON, CSV, SQLite .db and .sql, .xls, .xlsx for TicDat and JSON, CSV, SQLite, .xlsx for PanDat, pretty table names, generic tables, objects of the wrong schema. "
        "Databases are compared table by table with their values as text (a column's affinity is that of its first writer), workbooks sheet by sheet, other files byte by byte. "
        "Postgres overwriting is P21. A failing PanDat append and a write that fails midway on a cell the format cannot hold are not judged.")
TABLES = ["foods", "cost_curve", "Arc_Data", "q"]
FIELDS = ["key", "qty", "min cost", "x"]
TARGETS = {"json": ["a.json", "b.json"], "csv": ["d1", "d2", "sub"], "db": ["x.db", "y.db"], "sql": ["q.sql"], "xls": ["w.xls"], "xlsx": ["w.xlsx", "v.xlsx"]}
ODD = ["sub", "a.json", "x.db", "none/out", "d1", "garbage.db", "empty.db"]
EXT = {"xls": ".xls", "xlsx": ".xlsx"}


@st.composite
def _history(draw):
    tabs = {}
    for t in draw(st.lists(st.sampled_from(TABLES), min_size=1, max_size=3, unique=True)):
        fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=3, unique=True))
        k = draw(st.integers(0, len(fs)))
        tabs[t] = [fs[:k], fs[k:]]
    generic = draw(st.integers(0, 2)) == 0
    datas = []
    for i in range(draw(st.integers(2, 3))):
        d = {}
        for t, (pks, dfs) in tabs.items():
            d[t] = [["d%dr%d%s" % (i, r, f) for f in pks + dfs] for r in range(draw(st.integers(0, 2)))]
        if generic:
            cols = draw(st.sampled_from([["c1", "c 2"], ["c1"]]))
            d["gen_t"] = [cols, [["d%dg%d" % (i, r)] * len(cols) for r in range(draw(st.integers(0, 2)))]]
        datas.append(d)
    steps, focus = [], []
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 5)) == 0:
            steps.append({"do": "bystander", "at": draw(st.sampled_from(["d1", "d2", "x.db", "y.db", "sub"])), "name": draw(st.sampled_from(["other", "Foods", "cost curve"]))})
            continue
        pan = draw(st.integers(0, 2)) == 0
        again = focus and draw(st.integers(0, 3)) > 0
        if again:
            pan = draw(st.sampled_from([False, False, True])) and focus[0][0].split()[0] in formats.PD
        fmt = draw(st.sampled_from(["json", "csv", "csv", "db", "db", "xlsx"] if pan else ["json", "json verbose", "csv", "csv", "db", "db", "sql", "xls", "xlsx"]))
        name = draw(st.sampled_from(TARGETS[fmt.split()[0]] * 4 + [o + EXT.get(fmt, "") for o in ODD]))
        if again:
            fmt, name = focus[0]
        else:
            focus.insert(0, [fmt, name])
        if pan:
            fmt = fmt.split()[0]
        steps.append({"do": "write", "pan": pan, "fmt": fmt, "at": name, "over": draw(st.booleans()), "pretty": draw(st.integers(0, 2)) == 0, "data": draw(st.integers(0, len(datas) - 1)),
                      "bad": draw(st.integers(0, 6)) == 0, "if_exists": draw(st.sampled_from(["replace", "replace", "fail", "append"]))})
    return {"tables": tabs, "generic": generic, "datas": datas, "steps": steps, "dirs": draw(st.lists(st.sampled_from(["d1", "sub", "dir.xlsx", "none.xls", "d1.xls", "sub.xlsx"]), unique=True))}


def tree(root):
    out = {}
    for at, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(at, d), root)] = None
        for f in files:
            p = os.path.join(at, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def tables_of(path):
    """{table: sorted rows as text} of a database, None when it is not one"""
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        return {n: [[c[1] for c in con.execute("pragma table_info([%s])" % n)], sorted([["" if v is None else str(v) for v in r] for r in con.execute("select * from [%s]" % n)])]
                for (n,) in con.execute("select name from sqlite_master where type = 'table'")}
    except sqlite3.DatabaseError:
        return None
    finally:
        con.close()


def book_of(path):
    if path.endswith(".xls"):
        import xlrd
        return {s.name: [list(s.row_values(i)) for i in range(s.nrows)] for s in xlrd.open_workbook(path).sheets()}
    import openpyxl
    return {s.title: [list(r) for r in s.iter_rows(values_only=True)] for s in openpyxl.load_workbook(path).worksheets}


def write(f, dat, path, step):
    fmt, over = step["fmt"], step["over"]
    if step["pan"]:
        if fmt == "json":
            return f.json.write_file(dat, path) if not step["pretty"] else f.json.write_file_pd(dat, path, case_space_table_names=True)
        if fmt == "csv":
            return f.csv.write_directory(dat, path, case_space_table_names=step["pretty"])
        if fmt == "db":
            return f.sql.write_file(dat, path, if_exists=step["if_exists"], case_space_table_names=step["pretty"])
        return f.xls.write_file(dat, path, case_space_sheet_names=step["pretty"])
    if fmt.startswith("json"):
        return f.json.write_file(dat, path, allow_overwrite=over, verbose="verbose" in fmt)
    if fmt == "csv":
        return f.csv.write_directory(dat, path, allow_overwrite=over, case_space_table_names=step["pretty"])
    if fmt == "db":
        return f.sql.write_db_data(dat, path, allow_overwrite=over)
    if fmt == "sql":
        return f.sql.write_sql_file(dat, path, include_schema=step["pretty"], allow_overwrite=over)
    return f.xls.write_file(dat, path, allow_overwrite=over, case_space_sheet_names=step["pretty"])


def check(case, ctx):
    import ticdat, pandas as pd
    from ticdat.utils import TicDatError
    root = ctx.tmpdir()
    tabs = case["tables"]
    spec = {"tables": dict(tabs)}
    if case["generic"]:
        spec["tables"]["gen_t"] = "*"
    tdf, pdf = gen.tdf_of(spec), gen.pdf_of({"tables": tabs})
    other = ticdat.TicDatFactory(unrelated=[["z"], []])

    def objects(i):
        d = {t: rows for t, rows in case["datas"][i].items() if t != "gen_t"}
        td = gen.make_td(tdf, {"tables": tabs}, d)
        if case["generic"]:
            cols, rows = case["datas"][i]["gen_t"]
            td.gen_t = pd.DataFrame(rows, columns=cols)
        return td, gen.make_pd(pdf, {"tables": tabs}, d)
    for d in case["dirs"]:
        os.mkdir(os.path.join(root, d))
    with open(os.path.join(root, "garbage.db"), "w") as f:
        f.write("not a database " * 100)
    open(os.path.join(root, "empty.db"), "w").close()
    for n, step in enumerate(case["steps"]):
        path = os.path.join(root, step["at"])
        before = tree(root)
        if step["do"] == "bystander":
            if os.path.isdir(path):
                with open(os.path.join(path, step["name"] + ".csv"), "a") as f:
                    f.write("bystander,by\n1,%d\n" % n)
            elif step["at"].endswith(".db") and (not os.path.exists(path) or tables_of(path) is not None):
                con = sqlite3.connect(path)
                con.execute("create table if not exists [by %s] (v)" % step["name"])
                con.execute("insert into [by %s] values (?)" % step["name"], [n])
                con.commit()
                con.close()
            continue
        td, pn = objects(step["data"])
        f, dat = (pdf, pn) if step["pan"] else (tdf, td)
        if step["fmt"].startswith("json") and case["generic"] and not step["pan"]:  # JSON does not know generic tables
            f = gen.tdf_of({"tables": tabs})
            dat = gen.make_td(f, {"tables": tabs}, {t: case["datas"][step["data"]][t] for t in tabs})
        judge(f, dat, other, step, path, root, before, ctx, tabs, case["datas"][step["data"]], TicDatError, n)


def judge(f, dat, other, step, path, root, before, ctx, tabs, data, TicDatError, n):
    fmt, pan = step["fmt"], step["pan"]
    what = "step %d (%s)" % (n, step)
    kind = "dir" if os.path.isdir(path) else "file" if os.path.exists(path) else "nothing"
    old = tables_of(path) if fmt == "db" and kind == "file" else {}
    # the empty-directory reference
    fresh = ctx.tmpdir()
    ref = os.path.join(fresh, os.path.basename(path))
    if os.sep in step["at"]:
        ref = None
    if ref:
        with interpreting("writing into an empty directory"):
            write(f, dat, ref, dict(step, if_exists="fail"))
    name = pretty if step["pretty"] else str
    generics = ["gen_t"] if not pan and "gen_t" in data else []
    live = [t for t in list(tabs) + generics if t != "gen_t" or data["gen_t"][1]]
    rel = lambda t: os.path.join(step["at"], name(t) + ".csv")
    # what should happen
    refuse, exact = None, False  # exact: the documented refusal, a TicDatError
    loose = False
    if step["bad"]:
        refuse = "the object has another schema"
    elif os.sep in step["at"]:
        refuse = "the parent directory does not exist"
    elif fmt == "csv":
        if kind == "file":
            refuse, exact = "a file is given for a directory", True
        elif not pan and not step["over"]:
            hits = [t for t in list(tabs) + generics if rel(t) in before]
            if hits:
                refuse, exact = "the files of %s exist" % hits, True
            loose = any(os.path.join(step["at"], x(t) + ".csv") in before for t in list(tabs) + generics for x in (str, pretty))
    elif kind == "dir":
        refuse, exact = "a directory is given for a file", fmt in ("db", "xls", "xlsx")
    elif fmt == "db" and pan:
        if old is None:
            refuse = "the file is not a database"
        elif step["if_exists"] == "fail" and any(name(t).lower() == o.lower() for t in tabs for o in old):
            refuse = "a table exists"
        elif any(name(t).lower() == o.lower() and name(t) != o for t in tabs for o in old):
            return  # pandas does not see that such a table exists
    elif fmt == "db":
        has = {o.lower(): o for o in old or {}}
        if kind == "file" and (old is None or any(t.lower() not in has for t in live)):
            refuse, exact = "the file lacks some table", True
        elif kind == "file" and any(has_fields(old, has, t, fs) for t, fs in fields_of(tabs, data, live).items()):
            refuse, exact = "a table lacks some field", True
        elif not step["over"] and any(old[has[t.lower()]][1] for t in list(tabs) + generics if t.lower() in has):
            refuse, exact = "some table holds rows", True
        elif kind == "file" and any(t.replace("_", " ").lower() in has and " " in t.replace("_", " ") for t in tabs):
            loose = True  # two tables that match one name
    elif kind == "file" and not pan and not step["over"]:
        refuse, exact = "the file exists", True
    ctx.label("%s %s %s" % ("pan" if pan else "tic", fmt, "refused" if refuse else "written"))
    if kind != "nothing" or (fmt == "db" and old):
        ctx.nontrivial()
    try:
        write(f, other.TicDat() if step["bad"] else dat, path, step)
        raised = None
    except Exception as e:
        raised = e
    after = tree(root)
    if refuse:
        require(raised is not None, "%s: no error although %s", what, refuse)
        require(not exact or isinstance(raised, TicDatError), "%s: %s raised %r, not a TicDatError", what, refuse, raised)
        if pan and fmt == "db" and kind == "file" and old is not None:  # new tables may have come before the one that exists
            now = tables_of(path)
            for t, v in old.items():
                require_eq(now.get(t), v, "%s: table %s after a refused write" % (what, t))
            after[step["at"]] = before[step["at"]]
        new = {p: v for p, v in after.items() if before.get(p, 0) != v}
        require(not new and set(before) <= set(after), "%s: a refused write (%s) changed %s", what, refuse, sorted(new) or sorted(set(before) - set(after)))
        return
    if raised is not None and (loose or (pan and fmt == "db" and step["if_exists"] == "append")):
        if loose:
            require_eq(after, before, "%s: the tree after an error" % what)
        return
    if raised is not None:
        raise raised
    mine = {rel(t) for t in tabs} | {rel(t) for t in generics} if fmt == "csv" else {step["at"]}
    if fmt == "csv" and kind == "nothing":
        mine.add(step["at"])
    strangers = {p for p in set(before) | set(after) if p not in mine and before.get(p, 0) != after.get(p, 0)}
    require(not strangers, "%s changed %s", what, sorted(strangers))
    if fmt == "csv":
        written = tree(ref)
        for t in list(tabs) + generics:
            require_eq(after.get(rel(t)), written.get(name(t) + ".csv"), "%s: file of %s" % (what, t))
        return
    if fmt == "db":
        now, want = tables_of(path), tables_of(ref)
        mine = {name(t).lower() if pan else t.lower() for t in list(tabs) + generics}
        for t, v in (old or {}).items():
            if t.lower() not in mine:
                require_eq(now.get(t), v, "%s: table %s, which is not of the schema" % (what, t))
        low = {t.lower(): v for t, v in now.items()}
        for t in sorted(mine):
            cols, rows = next((v for k, v in want.items() if k.lower() == t), (None, []))
            earlier = next((v for k, v in (old or {}).items() if k.lower() == t), None) if pan and step["if_exists"] == "append" else None
            if cols is None and t not in low:
                continue
            got_cols, got = low[t]
            pick = [got_cols.index(c) for c in (cols or got_cols)]
            got = [[r[i] for i in pick] for r in got]
            more = [[r[earlier[0].index(c)] for c in cols] for r in earlier[1]] if earlier else []
            require_eq(sorted(got), sorted(rows + more), "%s: rows of %s" % (what, t))
        return
    if fmt in ("xls", "xlsx"):
        require_eq(book_of(path), book_of(ref), "%s: workbook" % what)
        return
    require_eq(after[step["at"]], tree(fresh)[os.path.basename(path)], "%s: bytes of the file" % what)


def fields_of(tabs, data, live):
    return {t: sum(tabs[t], []) if t in tabs else data[t][0] for t in live}


def has_fields(old, has, t, fields):
    return {f.lower() for f in fields} - {c.lower() for c in old[has[t.lower()]][0]}


FACETS = [Facet("histories", check, _history, quick=1500, rule="some step found its destination in existence")]
