import csv, json, os, sqlite3
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = ("property-based testing (Hypothesis): sources in every format built cell by cell without ticdat's writers, their table and column names recased, respaced, reordered, "
             "duplicated, dropped and surrounded by near misses, read by both factories and compared with a name-matching model over unique tokens")
NOTE = ("CSV, SQLite .db and .sql, .xls, .xlsx, JSON (dictionaries of rows, pandas split and records) with TicDat and PanDat. Cells are unique text tokens, so a cell under the wrong field shows. "
        "Names are ASCII. TicDat CSV, Excel and SQLite match fields without regard to case; PanDat and JSON match them exactly; a JSON row given as a dictionary follows the TicDat constructor "
        "(absent fields take defaults, unknown fields are an error). Excluded: identical column names for PanDat (pandas renames the second), schema fields differing only by case, rowid aliases.")
NAMES = ["foods", "a", "bb", "cost_curve", "Arc_Data", "plan_x_y", "T1", "myTable", "a_b", "big_old_table_name_that_is_very_long"]
FIELDS = ["key", "Qty", "min nutrition", "Max_Nutrition", "x", "y1", "from", "Supply Amount", "order", "Name"]
TD = ["csv", "csv", "db", "sql", "xls", "xlsx", "json", "json split"]
PD = ["csv", "db", "xlsx", "json split", "json index"]
EXTRA = ["extra", "zz", "key2", "index", "min_nutrition", "max nutrition", " x", "x ", "qty_", "namee", "level_0"]


def case_of(draw, s):
    k = draw(st.sampled_from(["same", "lower", "upper", "swap", "title"]))
    return {"same": s, "lower": s.lower(), "upper": s.upper(), "swap": s.swapcase(), "title": s.title()}[k]


def spaced(draw, s):
    return "".join(" " if c == "_" and draw(st.booleans()) else c for c in s)


@st.composite
def _case(draw):
    pan = draw(st.booleans())
    fmt = draw(st.sampled_from(PD if pan else TD))
    ntab = draw(st.integers(1, 3))
    tabs = {}
    for t in draw(st.lists(st.sampled_from(NAMES), min_size=ntab, max_size=ntab, unique=True)):
        fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4, unique=True))
        k = draw(st.integers(0, len(fs)))
        tabs[t] = [fs[:k], fs[k:]]
    defaults = {t: {f: "dflt " + f for f in v[1] + v[0] * (draw(st.integers(0, 5)) == 0) if draw(st.booleans())} for t, v in tabs.items()}
    fill = pan and draw(st.booleans())
    sources, bad = [], draw(st.integers(0, 2))  # bad: how much may go wrong
    for t, (pks, dfs) in tabs.items():
        fate = draw(st.sampled_from(["once"] * 6 + ["absent"] + (["twice"] if bad == 2 else [])))
        for i in range({"absent": 0, "once": 1, "twice": 2}[fate]):
            cols = []
            for f in draw(st.permutations(pks + dfs)):
                what = draw(st.sampled_from(["case"] * 8 + ["same"] * 4 + (["drop", "space", "double"] if bad else []) + ["drop"] * 8 * (fill and (f in dfs or f in defaults[t]))))
                if what in ("case", "double"):
                    cols.append(f if (pan or fmt.startswith("json")) and draw(st.integers(0, 9)) else case_of(draw, f))
                    if what == "double":
                        cols.append(draw(st.sampled_from([f, f.upper(), f.lower()])))
                elif what == "same":
                    cols.append(f)
                elif what == "space":
                    cols.append(draw(st.sampled_from([" " + f, f + " ", f.replace(" ", "_"), f.replace("_", " "), f + "."])))
            if draw(st.booleans()):
                for e in draw(st.lists(st.sampled_from(EXTRA), max_size=3)):
                    cols.insert(draw(st.integers(0, len(cols))), e)
            lower = lambda c: c.lower() if fmt in ("db", "sql") else c
            keep, seen = [], set()
            for c in cols:
                dup = lower(c) in seen
                seen.add(lower(c))
                if not dup or (fmt in ("csv", "xls", "xlsx") and not pan):
                    keep.append(c)
            if not keep:
                keep = ["nothing"]
            n = draw(st.integers(0, 3))
            if fmt == "json" and set(pks) - set(keep):  # or the keys would be duplicates
                n = min(n, 1)
            sources.append([spaced(draw, case_of(draw, t)), keep, n])
    if draw(st.integers(0, 2)) == 0:
        for e in draw(st.lists(st.sampled_from(["other", "food", "foodss", "a b c", "t 1 ", "costcurve", "plan_x-y", "Sheet1"]), max_size=2, unique=True)):
            sources.append([e, ["key", "x"], 1])
    # what the container itself cannot hold twice
    tname = {"db": str.lower, "sql": str.lower, "xlsx": str.lower, "xls": str.lower}.get(fmt, str)
    uniq = {}
    for s in sources:
        n = s[0][:31] if fmt in ("xls", "xlsx") else s[0]
        uniq.setdefault(tname(n), [n] + s[1:])
    sources = [uniq[k] for k in (draw(st.permutations(sorted(uniq))))]
    return {"pan": pan, "fmt": fmt, "tables": tabs, "defaults": defaults, "sources": sources, "long rows": fmt == "csv" and draw(st.integers(0, 5)) == 0,
            "fill": fill, "generator": not pan and fmt in ("csv", "db") and draw(st.integers(0, 4)) == 0}


token = lambda i, j, r: "s%dc%dr%d" % (i, j, r)


def write_source(case, path):
    fmt, sources = case["fmt"], case["sources"]
    grids = [(name, cols, [[token(i, j, r) for j in range(len(cols))] for r in range(n)]) for i, (name, cols, n) in enumerate(sources)]
    if fmt == "csv":
        os.mkdir(path)
        for name, cols, rows in grids:
            with open(os.path.join(path, name + ".csv"), "w", newline="") as f:
                csv.writer(f).writerows([cols] + [r + ["beyond"] * case["long rows"] for r in rows])
    elif fmt in ("db", "sql"):
        con = sqlite3.connect(path if fmt == "db" else ":memory:")
        for name, cols, rows in grids:
            con.execute("create table [%s] (%s)" % (name, ", ".join("[%s]" % c for c in cols)))
            con.executemany("insert into [%s] values (%s)" % (name, ",".join("?" for _ in cols)), rows)
        con.commit()
        if fmt == "sql":
            with open(path, "w") as f:
                f.write("\n".join(l for l in con.iterdump() if l not in ("BEGIN TRANSACTION;", "COMMIT;")))
        con.close()
    elif fmt == "xls":
        import xlwt
        book = xlwt.Workbook()
        for name, cols, rows in grids or [("unrelated", [], [])]:
            sheet = book.add_sheet(name)
            for i, row in enumerate([cols] + rows):
                for j, c in enumerate(row):
                    sheet.write(i, j, c)
        book.save(path)
    elif fmt == "xlsx":
        import openpyxl
        book = openpyxl.Workbook()
        if grids:
            book.remove(book.active)
        for name, cols, rows in grids:
            sheet = book.create_sheet(name)
            require_eq(sheet.title, name, "sheet title (harness)")
            for row in [cols] + rows:
                sheet.append(row)
        book.save(path)
    else:
        out = {}
        for name, cols, rows in grids:
            if fmt.endswith("split"):
                out[name] = {"columns": cols, "data": rows}
            elif case["pan"]:
                out[name] = {str(r): dict(zip(cols, row)) for r, row in enumerate(rows)}
            else:
                out[name] = [dict(zip(cols, row)) for row in rows]
        with open(path, "w") as f:
            json.dump(out, f)


def model(case):
    """the tables that are expected, or the reason an error is"""
    fmt, pan = case["fmt"], case["pan"]
    exact = pan or fmt.startswith("json")
    hit = (lambda c, f: c == f) if exact else (lambda c, f: c.lower() == f.lower())
    sheets = fmt in ("xls", "xlsx")
    table_hit = lambda s, t: s.lower().replace(" ", "_")[:30] == t.lower()[:30] if sheets else s.lower().replace(" ", "_") == t.lower()
    want, why = {}, []
    for t, (pks, dfs) in case["tables"].items():
        found = [i for i, s in enumerate(case["sources"]) if table_hit(s[0], t)]
        if len(found) > 1:
            why.append("several sources for %s" % t)
            continue
        if not found:
            want[t] = []
            continue
        i = found[0]
        _, cols, n = case["sources"][i]
        if fmt == "json index" and not n:  # rows that carry the names are absent
            cols = []
        rows = [[] for _ in range(n)]
        plain_json = fmt == "json"
        if plain_json and n and [c for c in cols if c not in pks + dfs]:
            why.append("unknown fields in the dictionaries of %s" % t)
        for f in pks + dfs:
            at = [j for j, c in enumerate(cols) if hit(c, f)]
            if len(at) > 1:
                why.append("several columns for %s %s" % (t, f))
            elif not at and plain_json:
                for r in rows:
                    r.append(case["defaults"][t].get(f, 0))
            elif not at:
                if pan and case["fill"] and (f in dfs or f in case["defaults"][t]):
                    for r in rows:
                        r.append(case["defaults"][t].get(f, 0))
                else:
                    why.append("no column for %s %s" % (t, f))
            else:
                for r, row in enumerate(rows):
                    row.append(token(i, at[0], r))
        want[t] = rows
    return want, why


def check(case, ctx):
    import ticdat
    from ticdat.utils import TicDatError
    fmt, pan, tabs = case["fmt"], case["pan"], case["tables"]
    if fmt == "json split" and not pan and not case["sources"]:
        case = dict(case, fmt="json")
    path = formats.target(ctx.tmpdir(), fmt.split()[0], "src")
    write_source(case, path)
    want, why = model(case)
    F = ticdat.PanDatFactory if pan else ticdat.TicDatFactory
    f = F(**tabs)
    for t, ds in case["defaults"].items():
        for fld, d in ds.items():
            f.set_default_value(t, fld, d)
    gens = []
    if case["generator"]:
        gens = [t for t, v in tabs.items() if not v[0]]
        f.set_generator_tables(gens)
    changed = any(s[0] not in tabs for s in case["sources"]) or any(c not in sum(tabs.values(), [[], []]) for s in case["sources"] for c in s[1])
    if changed or why:
        ctx.nontrivial()
    ctx.label("%s %s" % ("pan" if pan else "tic", fmt))
    ctx.label("error expected" if why else "read expected")
    kw = {"fill_missing_fields": case["fill"]} if pan else {}
    if fmt == "json index":
        kw["orient"] = "index"
    with interpreting("reading"):
        try:
            dat = formats.read_pd(f, path, fmt.split()[0], **kw) if pan else formats.read_td(f, path, fmt.split()[0], **kw)
            got = {}
            for t, (pks, dfs) in tabs.items():
                v = getattr(dat, t)
                if pan:
                    require_eq(list(v.columns), pks + dfs, "columns of %s" % t)
                    got[t] = [list(r) for r in v.itertuples(index=False)]
                elif pks:
                    got[t] = [(list(k) if len(pks) > 1 else [k]) + [row[x] for x in dfs] for k, row in v.items()]
                else:
                    got[t] = [[row[x] for x in dfs] for row in (v() if callable(v) else v)]
        except TicDatError as e:
            require(why, "the reader raised although every name matches once: %s", e)
            return
    require(not why, "no error although %s; read %s", why, got)
    for t in tabs:
        require_eq(sorted(got[t], key=str), sorted(want[t], key=str), "rows of %s" % t)


FACETS = [Facet("names", check, _case, quick=2400, rule="a table or column name differs from the schema's, or an error is expected")]
