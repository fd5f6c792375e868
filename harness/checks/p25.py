import datetime, os
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = ("stateful property-based testing (Hypothesis): data carried along a chain of conversions, each hop written by one factory in one format and read by either factory "
             "(or a clone of it, twice), the rows after every hop compared with those at the start")
NOTE = ("JSON (rows as lists, rows as dictionaries, pandas split), CSV, SQLite .db and .sql, .xls, .xlsx, and copy_to_pandas/copy_to_tic_dat; any mix of TicDatFactory and PanDatFactory. "
        "The cells are those every format can hold: no empty text, nulls only in nullable fields, Excel dates without microseconds, numbers up to 1e-12 (1e-9 once pandas has written JSON); in .xls no nullable text and no native infinities (pandas cannot read them); "
        "fields that a format cannot type without a rule have one.")
INF = gen.INF
DT = [datetime.datetime(2020, 1, d, 3, 4, 5) for d in (1, 2, 3)] + [datetime.datetime(1999, 12, 31), datetime.datetime(2024, 2, 29, 23, 59, 59)]
WORDS = ["a", "b", "hot dog", "é", "日本", "x,y", '"', 'q"q', "it's", "a\nb", "\ta", "back\\slash", ";", " lead", "trail ", "\U0001f600", "=a", "http://x", "%s", "{}", "#x", "@"]
LOOKS = ["1", "007", "1.50", "1e5", "+3", "0", "2020-01-01", "-"]
rule = lambda lo=-INF, hi=INF, null=False, strs=(), num=True, date=False, il=True, ih=True, integer=False: [num, il, ih, lo, hi, integer, list(strs) if strs != "*" else "*", null, date]


def field(draw, is_pk, flag, xls):
    nums = [0, 1, -1, 0.5, 7, -3.25, 12, 1 / 3, 0.1, -1e-7, 900, 123.456] + ([2 ** 40, 1e20] if flag in ("N/A", None) else [])
    infs = [INF, -INF] if flag is not None and not (xls and flag == "N/A") else []
    k = draw(st.sampled_from(["num", "num", "numnull", "text", "text", "textnull", "date", "datenull", "int", "up", "both", "raw num", "raw text"] if not is_pk else
                             ["num", "text", "text", "date", "int", "both", "raw text"]))
    if k == "textnull" and xls:
        k = "text"
    if k == "num":
        return [rule(-1e30, 1e30) if flag is None else rule(), nums + infs]
    if k == "numnull":
        return [rule(null=True), nums + infs + [None]]
    if k == "text":
        return [rule(num=False, strs="*"), WORDS + LOOKS]
    if k == "textnull":
        return [rule(num=False, strs="*", null=True), WORDS + LOOKS + [None] * 5]
    if k == "date":
        return [rule(date=True), DT]
    if k == "datenull":
        return [rule(date=True, null=True), DT + [None]]
    if k == "int":
        return [rule(-1000, 1000, integer=True), [0, 1, -1, 7, 900, -33]]
    if k == "up":
        return [rule(-5, INF), [n for n in nums if n >= -5] + [INF] * (not (xls and flag == "N/A"))]
    if k == "both":
        return [rule(-1e30, 1e30, strs="*"), nums] if draw(st.booleans()) else [rule(-1e30, 1e30, strs="*"), WORDS]
    if k == "raw num":
        return [None, nums]
    return [None, WORDS]


@st.composite
def _chain(draw):
    flag = draw(st.sampled_from(["N/A", "N/A", 1e6, None]))
    xls = draw(st.integers(0, 3)) == 0
    tabs = draw(gen.tables(1, 3))
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "inf": flag, "munge": draw(st.booleans()), "xlsx": draw(st.sampled_from(["prune", "ignore"]))}
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            r, c = field(draw, f in pks, flag, xls)
            if r:
                spec["types"].setdefault(t, {})[f] = r
            cells[t, f] = st.sampled_from(c)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5))
    for t, rows in data.items():
        stands = lambda t, f, c: c is None or (flag is None and isinstance(c, float) and c == INF)
        while rows and all(stands(t, f, c) for f, c in zip(sum(tabs[t], []), rows[-1])):
            rows.pop()
        seen = {}
        for r in rows:  # keys that are equal numbers would be duplicates
            seen.setdefault(tuple(r[:len(tabs[t][0])]) or len(seen), r)
        data[t] = list(seen.values())
    hops = []
    pan = draw(st.booleans())
    start = pan
    for _ in range(draw(st.integers(1, 4))):
        fmt = draw(st.sampled_from(["json", "json split", "csv", "db", "xlsx"] if pan else ["json", "json verbose", "json split", "csv", "db", "sql", "xlsx"] + ["xls"] * 3 * xls))
        to_pan = fmt not in ("sql", "json verbose") and draw(st.booleans())
        hops.append({"fmt": fmt, "pan": to_pan, "clone": draw(st.booleans()), "pretty": draw(st.booleans())})
        pan = to_pan
        if draw(st.integers(0, 5)) == 5:
            hops.append({"fmt": "copy", "pan": not pan, "clone": False})
            pan = not pan
    return {"spec": spec, "data": data, "pan": start, "hops": hops, "dress": draw(st.booleans())}


def close(a, b, tol):
    if isinstance(a, tuple) and a[0] == "num" and b[0] == "num":
        return a[1] == b[1] or abs(a[1] - b[1]) <= tol * max(min(abs(a[1]), abs(b[1])), tol)
    return a == b


def key(row):
    return [(c[0], float("%.6g" % (c[1] if abs(c[1]) > 1e-9 else 0)) if c[0] == "num" else c[1:]) for c in row]


def same_rows(got, want, what, tol):
    g, w = sorted(gen.norm_rows(got), key=lambda r: repr(key(r))), sorted(gen.norm_rows(want), key=lambda r: repr(key(r)))
    require(len(g) == len(w) and all(close(a, b, tol) for x, y in zip(g, w) for a, b in zip(x, y)), "%s: rows %s, expected %s", what, g, w)


def check(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf, pdf = gen.tdf_of(spec), gen.pdf_of(spec)
    pan = case["pan"]
    dat = gen.make_pd(pdf, spec, data) if pan else gen.make_td(tdf, spec, data)
    if pan and case.get("dress"):
        gen.dress(dat, spec)
    content = lambda d, pan: gen.pd_content(spec, d) if pan else gen.td_content(spec, d)
    root = ctx.tmpdir()
    if any(data.values()):
        ctx.nontrivial()
    way, tol = "pan" if pan else "tic", 1e-12
    for i, hop in enumerate(case["hops"]):
        fmt, to = hop["fmt"], hop["pan"]
        way += " -%s-> %s" % (fmt, "pan" if to else "tic")
        ctx.label("%s %s %s" % ("pan" if pan else "tic", fmt, "pan" if to else "tic"))
        if fmt == "copy":
            if pan:
                dat = pdf.copy_to_tic_dat(dat)
            else:
                frames = tdf.copy_to_pandas(dat, drop_pk_columns=False)
                dat = pdf.PanDat(**{t: getattr(frames, t).reset_index(drop=True) for t in spec["tables"]})
        else:
            f = pdf if pan else tdf
            base = fmt.split()[0]
            path = formats.target(root, base, "hop%d" % i)
            kw = {}
            if pan and fmt == "json split":  # pandas writes ten digits
                tol = 1e-9
            if hop["pretty"] and base in ("csv", "xls", "xlsx"):
                kw = {"case_space_table_names" if base == "csv" else "case_space_sheet_names": True}
            if fmt == "json split":
                f.json.write_file_pd(dat, path) if pan else f.json.write_file(dat, path, to_pandas=True)
            else:
                (formats.write_pd if pan else formats.write_td)(f, dat, path, base if fmt != "json verbose" else fmt, **kw)
            g = pdf if to else tdf
            if hop["clone"]:
                g = g.clone()
            read = formats.read_pd if to else formats.read_td
            dat = read(g, path, base)
            again = read(g, path, base)
            with interpreting("reading twice"):
                a, b = content(dat, to), content(again, to)
                for t in a:
                    require_eq(gen.norm_rows(b[t]), gen.norm_rows(a[t]), "%s: table %s read twice" % (way, t))
        pan = to
        with interpreting("rows"):
            got = content(dat, pan)
            for t in data:
                same_rows(got[t], data[t], "%s: table %s" % (way, t), tol)


FACETS = [Facet("chains", check, _chain, quick=1500, rule="a non-empty table was carried")]
