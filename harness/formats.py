"""One interface over the file formats of both factories, and raw readers of what they write."""
import csv, json, os, sqlite3

TD = ["json", "json verbose", "csv", "db", "sql", "xls", "xlsx"]
PD = ["json", "csv", "db", "xlsx"]
EXT = {"json": ".json", "json verbose": ".json", "csv": "", "db": ".db", "sql": ".sql", "xls": ".xls", "xlsx": ".xlsx"}


def target(d, fmt, name="out"):
    return os.path.join(d, name + EXT[fmt])


def write_td(tdf, dat, path, fmt, **kw):
    if fmt.startswith("json"):
        return tdf.json.write_file(dat, path, verbose=fmt == "json verbose", **kw)
    if fmt == "csv":
        return tdf.csv.write_directory(dat, path, **kw)
    if fmt == "db":
        return tdf.sql.write_db_data(dat, path, **kw)
    if fmt == "sql":
        return tdf.sql.write_sql_file(dat, path, include_schema=True, **kw)
    return tdf.xls.write_file(dat, path, **kw)


def read_td(tdf, path, fmt, **kw):
    if fmt.startswith("json"):
        return tdf.json.create_tic_dat(path, **kw)
    if fmt == "csv":
        return tdf.csv.create_tic_dat(path, **kw)
    if fmt == "db":
        return tdf.sql.create_tic_dat(path, **kw)
    if fmt == "sql":
        return tdf.sql.create_tic_dat_from_sql(path, includes_schema=True, **kw)
    return tdf.xls.create_tic_dat(path, **kw)


def write_pd(pdf, dat, path, fmt, **kw):
    if fmt.startswith("json"):
        return pdf.json.write_file(dat, path, **kw)
    if fmt == "csv":
        return pdf.csv.write_directory(dat, path, **kw)
    if fmt == "db":
        return pdf.sql.write_file(dat, path, **kw)
    return pdf.xls.write_file(dat, path, **kw)


def read_pd(pdf, path, fmt, **kw):
    if fmt.startswith("json"):
        return pdf.json.create_pan_dat(path, **kw)
    if fmt == "csv":
        return pdf.csv.create_pan_dat(path, **kw)
    if fmt == "db":
        return pdf.sql.create_pan_dat(path, **kw)
    return pdf.xls.create_pan_dat(path, **kw)


def raw(path, fmt, fields):
    """{table: rows of stored cells in the order of fields[table]}; tables that are absent are left out"""
    out = {}
    if fmt.startswith("json"):
        with open(path) as f:
            js = json.load(f)
        for t, fs in fields.items():
            if t not in js:
                continue
            v = js[t]
            if isinstance(v, dict) and set(v) >= {"columns", "data"}:
                v = [dict(zip(v["columns"], r)) for r in v["data"]]
            out[t] = [[r[f] for f in fs] if isinstance(r, dict) else list(r) for r in v]
        return out
    if fmt == "csv":
        for t, fs in fields.items():
            p = os.path.join(path, t + ".csv")
            if os.path.exists(p):
                with open(p, newline="", encoding="utf-8") as f:
                    rows = list(csv.reader(f))
                at = [rows[0].index(x) for x in fs]
                out[t] = [[r[i] for i in at] for r in rows[1:]]
        return out
    if fmt in ("db", "sql"):
        con = sqlite3.connect(path if fmt == "db" else ":memory:")
        try:
            if fmt == "sql":
                with open(path, encoding="utf-8") as f:
                    con.executescript(f.read())
            have = {r[0] for r in con.execute("select name from sqlite_master where type = 'table'")}
            for t, fs in fields.items():
                if t in have:
                    out[t] = [list(r) for r in con.execute("select %s from [%s]" % (", ".join("[%s]" % f for f in fs), t))]
        finally:
            con.close()
        return out
    if fmt == "xls":
        import xlrd
        book = xlrd.open_workbook(path)
        sheets = {s.name: [list(s.row_values(i)) for i in range(s.nrows)] for s in book.sheets()}
    else:
        import openpyxl
        book = openpyxl.load_workbook(path, data_only=True)
        sheets = {s.title: [list(r) for r in s.iter_rows(values_only=True)] for s in book.worksheets}
    for t, fs in fields.items():
        if t[:30] in sheets:
            rows = sheets[t[:30]]
            if not rows:
                out[t] = []
                continue
            at = [rows[0].index(x) for x in fs]
            out[t] = [[r[i] if i < len(r) else None for i in at] for r in rows[1:]]
    return out
