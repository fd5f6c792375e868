import csv, datetime, json, os, sqlite3
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting
from .p18 import looks_number

TECHNIQUE = ("property-based testing (Hypothesis): sources in every format built cell by cell without ticdat's writers, mixing parsable and unparsable date text, native dates, text that looks "
             "like numbers, numbers and nulls under every kind of rule and for every kind of parameter, read by both factories and compared with a cell by cell model of the rules; "
             "dates in many python forms written by both factories and read back")
NOTE = ("JSON (rows as lists, as dictionaries, pandas split), CSV, SQLite .db and .sql, .xls, .xlsx. Not judged, because the container or pandas types the cell before ticdat sees it: numbers in datetime fields "
        "of .xls and digits as dates in CSV, TicDat CSV under automunging off (text there always becomes a number when the rule allows one), pandas columns of CSV, Excel and split JSON under automunging off (compared by value), "
        "pandas' NA words, the word none in a nullable text-only field that a PanDatFactory reads from JSON (a documented override takes it for a null), the text true/false/inf in SQLite and inf in Excel, parameters stored as native numbers under a rule that admits only text.")
INF = gen.INF
D = datetime.datetime
DATES = [["2020-01-02", D(2020, 1, 2)], ["2020-01-02 03:04:05", D(2020, 1, 2, 3, 4, 5)], ["1/2/2021", D(2021, 1, 2)], ["Mar 3 2021 4pm", D(2021, 3, 3, 16)], ["2020-02-29T23:59:59", D(2020, 2, 29, 23, 59, 59)],
         ["1999-12-31 23:59:59.123456", D(1999, 12, 31, 23, 59, 59, 123456)], ["March 5, 1987", D(1987, 3, 5)], ["5 Jul 2030 10:30", D(2030, 7, 5, 10, 30)], ["25/12/2020", D(2020, 12, 25)],
         ["1776-07-04", D(1776, 7, 4)], ["2500-01-01", D(2500, 1, 1)]]
ZONED = [["2020-01-02T03:04:05Z", D(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)], ["2020-01-02 03:04:05+02:00", D(2020, 1, 2, 1, 4, 5, tzinfo=datetime.timezone.utc)]]
NOT_DATES = ["junk", "2020-13-45", "32/32/2020", "hello world", "maybe later", "20x", "2020-02-30"]
NUM_TEXT = [["12", 12], ["1.5", 1.5], ["-3", -3], ["1e3", 1000], ["007", 7], ["+4", 4], [".25", 0.25], ["5.", 5], ["-1E-2", -0.01], ["2000000", 2000000], ["-3e6", -3000000]]
WORDS = ["abc", "12abc", "1,000", "0x10", "1 2", "--1", "1e", "x", "north-east", "2020-01-01", "é", "1/2", "$5", "none", " none"]
TD = ["json", "json dict", "csv", "db", "sql", "xls", "xlsx"]
PD = ["json", "json split", "csv", "db", "xlsx"]
FIELDS = ["when", "date", "start_time", "modified", "due_at", "datetime", "qty", "min nutrition", "Code", "x", "timestamp"]
rule = lambda lo=-INF, hi=INF, null=False, strs=(), num=True, date=False, il=True, ih=True, integer=False: [num, il, ih, lo, hi, integer, list(strs) if strs != "*" else "*", null, date]


def put(path, fmt, tables):
    """tables: {name: [columns, rows]}; cells are text, numbers, dates (Excel) and None"""
    if fmt == "csv":
        os.mkdir(path)
        for t, (cols, rows) in tables.items():
            with open(os.path.join(path, t + ".csv"), "w", newline="", encoding="utf-8") as f:
                csv.writer(f, quoting=csv.QUOTE_ALL).writerows([cols] + [["" if c is None else repr(c) if isinstance(c, float) else c for c in r] for r in rows])
    elif fmt in ("db", "sql"):
        con = sqlite3.connect(path if fmt == "db" else ":memory:")
        for t, (cols, rows) in tables.items():
            con.execute("create table [%s] (%s)" % (t, ", ".join("[%s]" % c for c in cols)))
            con.executemany("insert into [%s] values (%s)" % (t, ",".join("?" for _ in cols)), rows)
        con.commit()
        if fmt == "sql":
            with open(path, "w", encoding="utf-8") as f:
                f.write("\n".join(l for l in con.iterdump() if l not in ("BEGIN TRANSACTION;", "COMMIT;")))
        con.close()
    elif fmt == "xls":
        import xlwt
        book, style = xlwt.Workbook(), xlwt.XFStyle()
        style.num_format_str = "YYYY-MM-DD HH:MM:SS"
        for t, (cols, rows) in tables.items():
            sheet = book.add_sheet(t)
            for i, row in enumerate([cols] + rows):
                for j, c in enumerate(row):
                    if c is not None:
                        sheet.write(i, j, c, *([style] if isinstance(c, D) else []))
        book.save(path)
    elif fmt == "xlsx":
        import openpyxl
        book = openpyxl.Workbook()
        book.remove(book.active)
        for t, (cols, rows) in tables.items():
            sheet = book.create_sheet(t)
            for row in [cols] + rows:
                sheet.append(row)
        book.save(path)
    else:
        shape = {"json": lambda cols, rows: rows, "json dict": lambda cols, rows: [dict(zip(cols, r)) for r in rows], "json split": lambda cols, rows: {"columns": cols, "data": rows}}[fmt]
        with open(path, "w") as f:
            json.dump({t: shape(*v) for t, v in tables.items()}, f)


EXT = {"json": "in.json", "json dict": "in.json", "json split": "in.json", "csv": "in", "db": "in.db", "sql": "in.sql", "xls": "in.xls", "xlsx": "in.xlsx"}


def read(f, pan, fmt, path):
    kw = {"treat_inf_as_infinity": False} if fmt in ("xls", "xlsx") and not pan and f.generator_tables else {}
    return (formats.read_pd if pan else formats.read_td)(f, path, fmt.split()[0], **kw)


def cells_of(draw, kind, fmt, pan, flag, munge):
    """entries [cell in the source, value expected]"""
    out = []
    if kind.startswith("date"):
        out = [[s, d] for s, d in DATES] + [[s, s] for s in NOT_DATES]
        if not pan:
            out += ZONED
        if fmt in ("xls", "xlsx"):
            out += [[d, d] for d in (D(2020, 1, 2, 3, 4, 5), D(1999, 12, 31), D(2024, 2, 29, 12))] * 2
        if fmt not in ("xls", "csv"):
            out += [[n, n] for n in (5, 2.5, -1, 43831, 0)]
        if kind == "date null" or (pan and fmt != "json split"):
            out += [[None, None]] * 3
    elif kind.startswith("both"):
        to = lambda v: v if not isinstance(flag, (int, float)) or abs(v) < flag else INF if v > 0 else -INF
        for s, v in NUM_TEXT:
            out.append([s, to(v) if munge or (fmt == "csv" and not pan) else s])
        out += [[s, s] for s in WORDS]
        out += [[v, to(v)] for v in (5, 2.5, -1, 0, 3e6)] if fmt != "csv" else []
        if fmt.split()[0] in ("json", "db", "sql"):
            out += [["", ""]] * 2
        if kind == "both null":
            out += [[None, None]] * 3
    elif kind in ("text", "choice", "text null"):
        out = [[s, s] for s in WORDS + [x for x, _ in NUM_TEXT] + ["1.50", "00", "2020-01-02 03:04:05"]]
        if kind == "text null":  # reading JSON, a PanDatFactory takes the word none in such a field for a null
            out = [e for e in out if e[0] != "none" or not pan or not fmt.startswith("json")] + [[" none", " none"], [None, None], [None, None]]
    elif kind == "number":
        to = lambda v: v if not isinstance(flag, (int, float)) or abs(v) < flag else INF if v > 0 else -INF
        out = [[v, to(v)] for v in (5, 2.5, -1, 0, 12, 3e6, 86400000, 1577934245, 50000000)]
    elif kind == "int":
        out = [[v, v] for v in (5, -1, 0, 12, 900, 4000)]
    return out


RULES = {"date": rule(date=True), "date null": rule(date=True, null=True), "both": rule(-1e30, 1e30, strs="*"), "both null": rule(null=True, strs="*"), "both few": rule(-1e30, 1e30, strs=WORDS[:5]), "both up": rule(0, INF, strs="*"), "text null": rule(num=False, strs="*", null=True), "text": rule(num=False, strs="*"),
         "choice": rule(num=False, strs=WORDS[:4] + [x for x, _ in NUM_TEXT]), "number": rule(-1e30, 1e30), "int": rule(-1e30, 1e30, integer=True)}


@st.composite
def _entries(draw):
    pan = draw(st.booleans())
    fmt = draw(st.sampled_from(PD if pan else TD))
    flag = draw(st.sampled_from(["N/A", "N/A", 1e6, None]))
    munge = draw(st.booleans())
    tabs, types, data = {}, {}, {}
    for t in draw(st.lists(st.sampled_from(["events", "T2", "plan_x"]), min_size=1, max_size=2, unique=True)):
        fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4, unique=True))
        npk = 0 if draw(st.integers(0, 3)) == 0 else draw(st.integers(1, 1 + len(fs)))
        cols = ["rid"] + fs
        tabs[t] = [cols[:npk], cols[npk:]]
        types[t] = {"rid": RULES["int"]}
        entries = {}
        for f in fs:
            is_pk = f in tabs[t][0]
            kind = draw(st.sampled_from(["date", "date null", "both", "both null", "both few", "both up", "text", "text null", "choice", "number", "int"]))
            kind = kind.split()[0] if is_pk else kind
            if kind == "both null" and flag is None and not RULES[kind][7]:
                kind = "both"
            types[t][f] = RULES[kind]
            pool = cells_of(draw, kind, fmt, pan, flag, munge)
            if is_pk:
                pool = [e for e in pool if e[0] is not None]
            if draw(st.booleans()):  # a column of one sort
                sort = type(draw(st.sampled_from(pool))[1])
                pool = [e for e in pool if type(e[1]) is sort or e[1] is None]
            entries[f] = [kind, pool]
        rows = []
        for i in range(draw(st.integers(0, 6))):
            rows.append([[i + 1, i + 1]] + [list(draw(st.sampled_from(entries[f][1]))) for f in fs])
        data[t] = [{f: entries[f][0] for f in fs}, rows]
    gens = [t for t in tabs if not pan and not tabs[t][0] and draw(st.booleans())] if fmt in ("csv", "db", "xls", "xlsx") else []
    return {"pan": pan, "fmt": fmt, "spec": {"tables": tabs, "fks": [], "types": types, "defaults": {}, "inf": flag, "munge": munge, "gens": gens}, "data": data}


def same(got, want, fmt, kind, loose):
    import numbers
    null = gen.is_null(got) or type(got).__name__ == "NaTType"
    if want is None:
        return null or (fmt in ("csv", "xls") and got == "")
    if null:
        return False
    if isinstance(want, D):
        if not isinstance(got, D):
            return False
        if (got.tzinfo is None) != (want.tzinfo is None):
            return False
        tol = datetime.timedelta(milliseconds=1 if fmt in ("xls", "xlsx") else 0)
        return abs((got.to_pydatetime(warn=False) if hasattr(got, "to_pydatetime") else got) - want) <= tol
    if isinstance(want, str):
        if loose and isinstance(got, numbers.Number) and looks_number(want):
            return float(got) == float(want)
        return isinstance(got, str) and got == want
    return isinstance(got, numbers.Number) and not isinstance(got, bool) and abs(got - want) <= 1e-12 * abs(want) if abs(want) != INF else isinstance(got, numbers.Number) and got == want


def check_entries(case, ctx):
    spec, fmt, pan = case["spec"], case["fmt"], case["pan"]
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    path = os.path.join(ctx.tmpdir(), EXT[fmt])
    put(path, fmt, {t: [sum(spec["tables"][t], []), [[c[0] for c in r] for r in rows]] for t, (_, rows) in case["data"].items()})
    dat = read(f, pan, fmt, path)
    bad = {}
    with interpreting("what was read"):
        got = gen.pd_content(spec, dat) if pan else gen.td_content(spec, dat)
        for t, (kinds, rows) in case["data"].items():
            cols = sum(spec["tables"][t], [])
            require(len(got[t]) == len(rows), "%s has %s rows, its source %s", t, len(got[t]), len(rows))
            by_id = {int(r[0]): r for r in got[t]}
            for row in rows:
                found = by_id[row[0][0]]
                for c, (src, want), g in list(zip(cols, row, found))[1:]:
                    loose = pan and fmt in ("csv", "xlsx", "json split") and not spec["munge"] and kinds[c].startswith("both")
                    if loose and looks_number(want or "x") and isinstance(spec["inf"], (int, float)) and abs(float(want)) >= spec["inf"] and not isinstance(g, str):
                        want = float("inf") * float(want)
                    require(same(g, want, fmt, kinds[c], loose), "%s.%s (%s rule): the entry %r was read as %r, expected %r", t, c, kinds[c], src, g, want)
                    if src is not want and not (isinstance(src, type(want)) and src == want):
                        ctx.nontrivial("%s %s" % (kinds[c].split()[0], type(want).__name__))
                    if kinds[c].startswith("date") and not isinstance(want, D) and (want is not None or kinds[c] == "date"):
                        bad.setdefault((t, c), set()).add(row[0][0])
    # what was kept although it is no date is a data type failure
    if not spec["gens"]:
        with interpreting("data type failures"):
            fails = f.find_data_type_failures(dat)
            for t, (kinds, rows) in case["data"].items():
                for c, k in kinds.items():
                    if not k.startswith("date"):
                        continue
                    mine = [v for kk, v in fails.items() if (kk.table, kk.field) == (t, c)]
                    want = bad.get((t, c), set())
                    require(bool(mine) == bool(want), "%s.%s: failures %s, rows that are no dates %s", t, c, mine, sorted(want))
                    if want and pan:
                        require_eq(sorted(int(x) for x in mine[0]["rid"]), sorted(want), "rows of %s.%s reported" % (t, c))
                    elif want and spec["tables"][t][0]:
                        pks = mine[0].pks
                        require_eq(sorted(int(k[0] if isinstance(k, tuple) else k) for k in pks), sorted(want), "rows of %s.%s reported" % (t, c))
    ctx.label(("pandat " if pan else "ticdat ") + fmt)


PARAMS = {"number": [rule(-INF, INF), 1], "positive": [rule(0, INF, ih=False), 1], "int": [rule(-1e9, 1e9, integer=True), 1], "text": [rule(num=False, strs="*"), "d"],
          "text null": [rule(num=False, strs="*", null=True), "d"],           "choice": [rule(num=False, strs=["1", "2.50", "on"]), "on"], "either": [rule(strs="*"), "d"], "auto": [rule(strs=["auto"]), "auto"], "date": [rule(date=True), "2020-01-01"],
          "date null": [rule(date=True, null=True), None], "maybe": [rule(null=True), None], "loose": [None, 0]}


def param_entries(kind, fmt, pan, textual):
    """[cell, expected]"""
    native = [[v, v] for v in (5, 2.5, 0, -1, 1000000, 3e20)] if fmt != "csv" and not textual else []
    nums = [[s, v] for s, v in NUM_TEXT]
    words = [[w, w] for w in WORDS if w != "none" or not pan or kind in ("text", "choice", "either", "auto", "number", "positive", "int")]
    if kind in ("number", "positive", "int", "maybe"):
        return nums + native + words[:3] + ([[None, None]] * 3 if kind == "maybe" else [])
    if kind in ("either", "loose", "auto"):
        return nums + native + words
    if kind in ("text", "choice", "text null"):
        return [[s, s] for s in ("1", "2.50", "on", "007", "1e5")] + words + ([["", ""]] * 9 if kind == "text null" and not pan and fmt not in ("xls", "xlsx") else [])
    out = [[s, d] for s, d in DATES] + [[s, s] for s in NOT_DATES]
    if fmt in ("xlsx",) and not textual:
        out += [[d, d] for d in (D(2020, 1, 2, 3, 4, 5), D(1999, 12, 31))]
    return out + ([[None, None]] * 3 if kind == "date null" else [])


@st.composite
def _params(draw):
    pan = draw(st.booleans())
    fmt = draw(st.sampled_from(PD if pan else TD))
    textual = draw(st.booleans())
    names = {}
    for n in draw(st.lists(st.sampled_from(["p1", "p 2", "P3", "p4", "p5", "007", "1e3"]), min_size=1, max_size=5, unique=True)):
        kind = draw(st.sampled_from(sorted(PARAMS)))
        names[n] = [kind, list(draw(st.sampled_from(param_entries(kind, fmt, pan, textual))))]
    if draw(st.integers(0, 3)) == 0:
        names["other"] = ["undeclared", list(draw(st.sampled_from(param_entries("loose", fmt, pan, textual))))]
    spec = {"tables": {"parameters": [["Key"], ["Value"]]}, "fks": [], "types": {}, "defaults": {}, "inf": draw(st.sampled_from(["N/A", 1e3, None])), "munge": draw(st.booleans()),
            "params": {n: PARAMS[k] for n, (k, _) in names.items() if k != "undeclared"} or {"unused": PARAMS["loose"]}}
    if draw(st.booleans()):
        spec["tables"]["items"] = [["id"], ["qty"]]
    if draw(st.integers(0, 2)) == 0:
        spec["types"]["parameters"] = {"Key": draw(st.sampled_from([RULES["both"], RULES["text"], RULES["both null"]]))}
    return {"pan": pan, "fmt": fmt, "spec": spec, "names": names, "written": draw(st.booleans())}


def check_params(case, ctx):
    spec, fmt, pan, names = case["spec"], case["fmt"], case["pan"], case["names"]
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    d = ctx.tmpdir()
    path = os.path.join(d, EXT[fmt])
    put(path, fmt, dict({"parameters": [["Key", "Value"], [[n, e[0]] for n, (_, e) in names.items()]]}, **({"items": [["id", "qty"], [[1, 2]]]} if "items" in spec["tables"] else {})))

    def look(dat, what):
        with interpreting(what):
            rows = (gen.pd_content(spec, dat) if pan else gen.td_content(spec, dat))["parameters"]
            require_eq(sorted(r[0] for r in rows), sorted(names), "%s: names" % what)
            full = f.create_full_parameters_dict(dat)
            for n, v in rows:
                kind, (src, want) = names[n]
                require(same(v, want, fmt, kind, False), "%s: parameter %r (%s) with the entry %r was read as %r, expected %r", what, n, kind, src, v, want)
                require(n in full and (same(full[n], want, fmt, kind, False)), "%s: create_full_parameters_dict gives %r for %r, expected %r", what, full.get(n), n, want)
    dat = read(f, pan, fmt, path)
    look(dat, "read")
    if any(e[0] is not e[1] and not (type(e[0]) is type(e[1]) and e[0] == e[1]) for _, e in names.values()):
        ctx.nontrivial()
    ctx.label(("pandat " if pan else "ticdat ") + fmt)
    if case["written"]:
        base = {"json dict": "json verbose", "json split": "json"}.get(fmt, fmt)
        path = formats.target(d, base, "again")
        (formats.write_pd if pan else formats.write_td)(f, dat, path, base)
        back = (formats.read_pd if pan else formats.read_td)(f, path, base)
        look(back, "written and read again")


FORMS = ["datetime", "Timestamp", "zoned", "zoned Timestamp", "text"]


def formed(form, d):
    import pandas as pd
    z = datetime.timezone(datetime.timedelta(hours=-5))
    return {"datetime": lambda: d, "Timestamp": lambda: pd.Timestamp(d), "zoned": lambda: d.replace(tzinfo=z),
            "zoned Timestamp": lambda: pd.Timestamp(d, tz=z), "text": lambda: d.isoformat(" ")}[form]()


@st.composite
def _instants(draw):
    pan = draw(st.booleans())
    fmt = draw(st.sampled_from(formats.PD if pan else formats.TD))
    tabs, types, forms, data = {}, {}, {}, {}
    for t in draw(st.lists(st.sampled_from(["events", "T2", "plan_x"]), min_size=1, max_size=2, unique=True)):
        fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=3, unique=True))
        npk = 0 if draw(st.integers(0, 3)) == 0 else draw(st.integers(1, 1 + len(fs)))
        cols = ["rid"] + fs
        tabs[t] = [cols[:npk], cols[npk:]]
        types[t] = {"rid": RULES["int"], **{f: RULES["date"] if f in tabs[t][0] else RULES["date null"] for f in fs}}
        pool = [f for f in FORMS if not (f.startswith("zoned") and fmt.startswith("xls"))]
        pools = {f: draw(st.lists(st.sampled_from(pool), min_size=1, max_size=1 if draw(st.booleans()) else 3)) for f in fs}
        moment = st.datetimes(D(1700, 1, 1), D(2250, 1, 1)) if draw(st.booleans()) else st.sampled_from([D(1900, 1, 1), D(1899, 12, 31), D(1900, 2, 28), D(1900, 3, 1, 1), D(2000, 1, 1), D(2020, 2, 29, 12, 30), D(1970, 1, 1), D(2038, 1, 19, 3, 14, 8)])
        data[t] = [[i] + [None if f not in tabs[t][0] and draw(st.integers(0, 5)) == 5 else [draw(st.sampled_from(pools[f])), draw(moment)] for f in fs] for i in range(draw(st.integers(1, 4)))]
    return {"pan": pan, "fmt": fmt, "spec": {"tables": tabs, "fks": [], "types": types, "defaults": {}, "inf": draw(st.sampled_from(["N/A", None, 1e6])), "munge": True}, "data": data}


def check_instants(case, ctx):
    spec, fmt, pan = case["spec"], case["fmt"], case["pan"]
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    cell = lambda c: c if not isinstance(c, list) else formed(*c)
    data = {t: [[cell(c) for c in r] for r in rows] for t, rows in case["data"].items()}
    dat = gen.make_pd(f, spec, data) if pan else gen.make_td(f, spec, data)
    path = formats.target(ctx.tmpdir(), fmt)
    (formats.write_pd if pan else formats.write_td)(f, dat, path, fmt)
    back = (formats.read_pd if pan else formats.read_td)(f, path, fmt)
    z = datetime.timezone(datetime.timedelta(hours=-5))
    with interpreting("what was read"):
        got = gen.pd_content(spec, back) if pan else gen.td_content(spec, back)
        for t, rows in case["data"].items():
            cols = sum(spec["tables"][t], [])
            require(len(got[t]) == len(rows), "%s has %s rows, expected %s", t, len(got[t]), len(rows))
            by_id = {int(r[0]): r for r in got[t]}
            for row in rows:
                for c, w, g in list(zip(cols, row, by_id[row[0]]))[1:]:
                    want = w
                    if isinstance(w, list):
                        form, d = w
                        want = d.replace(tzinfo=z) if form.startswith("zoned") else d
                        ctx.nontrivial(form)
                    require(same(g, want, fmt, "date", False), "%s.%s: %r written to %s was read as %r, expected %r", t, c, w and cell(w), fmt, g, want)
    ctx.label(("pandat " if pan else "ticdat ") + fmt)


FACETS = [Facet("entries", check_entries, _entries, quick=3000, rule="an entry changed type on reading"),
          Facet("parameters", check_params, _params, quick=2000, rule="a parameter changed type on reading"),
          Facet("instants", check_instants, _instants, quick=1500, rule="dates were carried")]
