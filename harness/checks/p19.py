import datetime, os, sqlite3
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import spec_and_data
from .p14 import pretty
from .p17 import DT, within_flag, numpied, stored
from .p18 import NUMS, BIGNUMS, PLAIN, NUMERIC_LOOKING, looks_number, rows_differ, pd_field, clean_data, spec_of

TECHNIQUE = ("write/read round trip over random schemas, rules, defaults, flags and hostile text, with the database and the .sql text examined through "
             "the sqlite3 module; the schema examined by inserting rows and through PRAGMAs")
NOTE = ("Documented exceptions that are not generated: the text true/false/inf/-inf, infinities in .sql under the None flag, consecutive single quotes in .sql, "
        "numeric-looking text in a field with a numeric default and no rule, integers beyond 64 bits. PanDat columns hold one kind of value.")
INF = gen.INF
RESERVED = {"true", "false", "inf", "-inf"}
HOSTILE = PLAIN + NUMERIC_LOOKING + ["a;b", "';--", "');DROP TABLE x;--", "--", "/*", "?", ":x", "@p", "it's; 'quoted'", "'edge'", "''", "a''b", "]", "[", "`", "null", "NULL", "x'41'", "\\'"]
_text = st.one_of(st.sampled_from(HOSTILE), st.text(alphabet="ab1,;'\"\\ \n\r\té[]-", min_size=0, max_size=6),
                  st.text(max_size=4).filter(lambda s: "\0" not in s and all(not 0xD800 <= ord(c) < 0xE000 for c in s)))
ANY_TEXT = _text.filter(lambda s: s.lower() not in RESERVED)
TEXT = ANY_TEXT.filter(lambda s: not looks_number(s))
WIDE = st.one_of(BIGNUMS, st.integers(-2 ** 63, 2 ** 63 - 1))


@st.composite
def td_field(draw, is_pk, flag):
    infs = [INF, -INF]
    nums = WIDE if flag == "N/A" else NUMS
    floats = BIGNUMS if flag == "N/A" else NUMS  # a field whose default is not integral is a FLOAT column
    some_inf = [] if flag is None else infs
    kinds = ["num", "text", "text", "both", "date", "int", "floor", "raw", "bool"] + ([] if is_pk else ["numnull", "textnull", "number default", "text default", "none default"])
    k = draw(st.sampled_from(kinds))
    if k == "num":
        rule = [True, True, True, -INF, INF, False, [], flag is None, False]
        return [rule, "unset", st.one_of(nums, st.sampled_from(some_inf + [0]))]
    if k == "numnull":
        return [[True, True, True, -INF, INF, False, [], True, False], draw(st.sampled_from(["unset", None, 2.5])), st.one_of(floats, st.none(), st.just(float("nan")))]
    if k == "text":
        return [[False, True, True, 0, INF, False, "*", False, False], draw(st.sampled_from(["unset", "d", "it's ]"])), ANY_TEXT]
    if k == "textnull":
        return [[False, True, True, 0, INF, False, "*", True, False], "unset", st.one_of(ANY_TEXT, st.none())]
    if k == "both":
        return [[True, True, True, -INF, INF, False, "*", True, False], draw(st.sampled_from(["unset", "x"])), st.one_of(NUMS, TEXT, st.none())]
    if k == "date":
        return [[True, True, True, 0, INF, False, [], not is_pk, True], "unset", st.sampled_from(DT if is_pk else DT + [None])]
    if k == "int":
        return [[True, True, True, -1e9, 1e9, True, [], False, False], "unset", st.integers(-900, 900)]
    if k == "floor":
        return [[True, True, True, -2, INF, False, [], False, False], "unset", st.one_of(st.integers(-2, 900), st.sampled_from([INF, 0.25]))]
    if k == "raw":
        # no rule: a primary key column is untyped, a data column has the numeric default 0
        return [None, "unset", st.one_of(ANY_TEXT, nums, st.booleans()) if is_pk else st.one_of(TEXT, nums, st.booleans(), st.none())]
    if k == "bool":
        return [None, "unset", st.booleans() if is_pk else st.one_of(st.booleans(), st.none())]
    if k == "number default":
        return [None, draw(st.sampled_from([3, 2.5, -1e-7, True])), st.one_of(TEXT, floats)]
    if k == "text default":
        return [None, draw(st.sampled_from(["d", "", "it's", "a]b", 'q"', "x;y"])), st.one_of(ANY_TEXT, nums, st.none())]
    return [None, None, st.one_of(ANY_TEXT, nums, st.none(), st.booleans())]


def generic_table(draw):
    n = draw(st.integers(0, 3))
    return [["c1", "c 2", "c3"], [[draw(st.integers(0, 3)), draw(st.sampled_from(["x", "y;z", "it's"])), draw(st.sampled_from([0.5, 2.25]))] for _ in range(n)]]


@st.composite
def _td(draw):
    spec, cells = spec_of(draw, td_field)
    data = clean_data(draw, spec, cells)
    if draw(st.integers(0, 4)) == 0:
        spec["tables"]["parameters"] = [["name"], ["val"]]
        data["parameters"] = [[k, draw(st.one_of(ANY_TEXT.filter(lambda s: not looks_number(s)), st.integers(-5, 2000), st.none()))]
                              for k in draw(st.lists(st.sampled_from(["a", "b", "c d"]), unique=True))]
    how = draw(st.sampled_from(["db", "db", "sql", "sql schema"]))
    if how == "db" and draw(st.integers(0, 3)) == 0:
        spec["gens"] = [t for t, v in spec["tables"].items() if not v[0] and draw(st.booleans())]
    if how != "db":
        def fit(c):
            if isinstance(c, str):
                c = c.replace("\0", "")
                while "''" in c:
                    c = c.replace("''", "'")
            return c
        for t, rows in data.items():
            out, seen, n = [], set(), len(spec["tables"][t][0])
            for r in rows:
                r = [fit(c) for c in r]
                if spec["inf"] is None and any(isinstance(c, float) and abs(c) == INF and stored(spec, t, f, c) is not None
                                               for c, f in zip(r, sum(spec["tables"][t], []))):
                    continue
                if n and tuple(r[:n]) in seen:
                    continue
                seen.add(tuple(r[:n]))
                out.append(r)
            data[t] = out
    generic = generic_table(draw) if draw(st.integers(0, 4)) == 0 else None
    if generic:
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "how": how, "freeze": draw(st.booleans()), "generic": generic, "overwrite": draw(st.booleans()),
            "numpy": draw(st.integers(0, 3)) == 0, "rename": draw(st.booleans())}


def cell(spec, t, f, v):
    """what the database must hold"""
    v = stored(spec, t, f, v)
    return str(v) if isinstance(v, bool) else v


def rows_in(con, t, fs):
    return [list(r) for r in con.execute("select %s from [%s]" % (", ".join("[%s]" % f for f in fs), t))]


def check_stored(con, spec, data, sql):
    want, got = {}, {}
    for t, rows in data.items():
        fs = sum(spec["tables"][t], [])
        got[t] = rows_in(con, t, fs)
        want[t] = [[cell(spec, t, f, v) for f, v in zip(fs, r)] for r in rows]
        if sql:
            want[t] = [["inf" if c == INF else "-inf" if c == -INF else c for c in r] for r in want[t]]
    require_eq(gen.diff_content(want, got), None, "stored rows")


def stamped(v):
    """a pandas or numpy value equal to v"""
    import pandas as pd
    return pd.Timestamp(v) if isinstance(v, datetime.datetime) else numpied(v) if not isinstance(v, bool) else __import__("numpy").bool_(v)


def check_td(case, ctx):
    import pandas as pd
    spec, data, how = case["spec"], case["data"], case["how"]
    tdf = gen.tdf_of(spec)
    gt = case["generic"]
    extra = {"gen_t": pd.DataFrame(gt[1], columns=gt[0])} if gt else {}
    put = {t: [[stamped(c) for c in r] for r in rows] for t, rows in data.items()} if case["numpy"] else data
    dat = tdf.TicDat(**{t: gen.td_table(spec, t, rows) for t, rows in put.items()}, **extra)
    path = os.path.join(ctx.tmpdir(), "x.db" if how == "db" else "x.sql")
    args = () if how == "db" else (how == "sql schema",)
    write = tdf.sql.write_db_data if how == "db" else tdf.sql.write_sql_file
    write(dat, path, *args)
    if case["overwrite"]:
        write(dat, path, *args, allow_overwrite=True)
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the data in memory after the write")
    if how == "db":
        con = sqlite3.connect(path)
        check_stored(con, spec, data, False)
        if gt and gt[1]:
            require_eq(gen.norm_rows(rows_in(con, "gen_t", gt[0])), gen.norm_rows(gt[1]), "generic table stored")
        if case["rename"]:
            for t in spec["tables"]:
                if "_" in t and (t != "gen_t" or gt[1]):
                    con.execute("alter table [%s] rename to [%s]" % (t, pretty(t)))
                    con.commit()
                    ctx.label("renamed")
        con.close()
        back = tdf.sql.create_tic_dat(path, **({"freeze_it": True} if case["freeze"] else {}))
    else:
        if how == "sql schema":
            con = sqlite3.connect(":memory:")
            with open(path, newline="", encoding="utf-8") as fp:
                con.executescript(fp.read())
            check_stored(con, spec, data, True)
            con.close()
        back = tdf.sql.create_tic_dat_from_sql(path, includes_schema=how == "sql schema", **({"freeze_it": True} if case["freeze"] else {}))
    msgs = []
    require(tdf.good_tic_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    require_eq(gen.diff_content(data, gen.td_content(spec, back)), None, "data read back (%s)" % how)
    for t, rows in data.items():
        if not spec["tables"][t][0]:
            require_eq(gen.norm_rows(gen.td_rows(spec, back, t)), gen.norm_rows(rows), "order of the rows of %s" % t)
    if gt and gt[1]:
        g = back.gen_t
        require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [gt[0], gen.norm_rows(gt[1])], "generic table read back")
        ctx.label("generic")
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label(how)
        if spec.get("gens"):
            ctx.label("generator tables")


# ---------------------------------------------------------------- PanDat
@st.composite
def _pd(draw):
    spec, cells = spec_of(draw, pd_field)
    data = clean_data(draw, spec, cells)
    for t in data:
        data[t] = [r for r in data[t] if not any(isinstance(c, str) and c.lower() in RESERVED for c in r)]
    generic = generic_table(draw) if draw(st.integers(0, 4)) == 0 else None
    if generic and draw(st.integers(0, 3)) == 0:
        generic = [[], []]
    if generic:
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "pretty": draw(st.booleans()), "con": draw(st.booleans()), "generic": generic, "extra": draw(st.booleans()),
            "again": draw(st.sampled_from(["no", "replace", "append", "fail"]))}


def check_pd(case, ctx):
    import pandas as pd
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    gt = case["generic"]
    if gt:
        dat.gen_t = pd.DataFrame(gt[1], columns=gt[0])
    if case["extra"]:
        gen.dress(dat, spec)
    path = os.path.join(ctx.tmpdir(), "x.db")
    con = sqlite3.connect(path) if case["con"] else None
    try:
        where = {"db_file_path": None, "con": con} if con else {"db_file_path": path}
        kw = {"case_space_table_names": True} if case["pretty"] else {}
        pdf.sql.write_file(dat, **where, **kw)
        times = 1
        if case["again"] == "fail":
            try:
                pdf.sql.write_file(dat, **where, **kw, if_exists="fail")
                wrote = True
            except Exception:
                wrote = False
            require(not wrote, "if_exists='fail' wrote into existing tables")
        elif case["again"] != "no":
            pdf.sql.write_file(dat, **where, **kw, if_exists=case["again"])
            times = 2 if case["again"] == "append" else 1
        require_eq(gen.diff_content(data, gen.pd_content(spec, dat)), None, "the data in memory after the write")
        if con:
            con.commit()
        names = sorted(r[0] for r in sqlite3.connect(path).execute("select name from sqlite_master where type='table'"))
        require_eq(names, sorted(pretty(t) if case["pretty"] else t for t in spec["tables"] if t != "gen_t" or gt[0]), "tables in the database")
        back = pdf.sql.create_pan_dat(**where)
        msgs = []
        require(pdf.good_pan_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
        require_eq({t: list(getattr(back, t).columns) for t in data}, {t: sum(spec["tables"][t], []) for t in data}, "columns read back")
        got = gen.pd_content(spec, back)

        def unbool(rows, other):
            # SQLite has no booleans: pandas stores 0 and 1
            return [[int(c) if isinstance(c, bool) or type(c).__name__ == "bool_" else c for c in r] for r in rows]
        for t in data:
            require_eq(rows_differ(unbool(data[t] * times, got[t]), unbool(got[t], data[t])), None, "data of %s read back" % t)
        if gt:
            g = back.gen_t
            require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [gt[0], gen.norm_rows(gt[1] * times)], "generic table read back")
            ctx.label("generic" if gt[1] else "empty generic" if gt[0] else "generic without columns")
    finally:
        if con:
            con.close()
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label("again: %s" % case["again"])


# ---------------------------------------------------------------- schema
@st.composite
def _schema(draw):
    spec, data = draw(spec_and_data(nulls=False, kinds=["int", "str"]))
    spec["types"], spec["defaults"] = {}, {}
    for t, rows in data.items():  # numeric-looking text is for the other facets
        n, seen = len(spec["tables"][t][0]), set()
        rows = [["c c" if c == "1" else c for c in r] for r in rows]
        data[t] = [r for r in rows if not n or not (tuple(r[:n]) in seen or seen.add(tuple(r[:n])))]
    for t, (pks, dfs) in spec["tables"].items():
        for f in dfs:
            if draw(st.booleans()):
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([3, 2.5, -7, 1e300, None, "d", "", "it's", "a]b", "x;y", True, "007", "é"]))
            if draw(st.integers(0, 3)) == 0:
                spec["types"].setdefault(t, {})[f] = draw(st.sampled_from([[False, True, True, 0, INF, False, "*", True, False], [True, True, True, -INF, INF, False, [], True, False]]))
    return {"spec": spec, "data": data, "sql": draw(st.booleans())}


def check_schema(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    d = ctx.tmpdir()
    path = os.path.join(d, "x.db")
    if case["sql"]:
        tdf.sql.write_sql_file(tdf.TicDat(), os.path.join(d, "x.sql"), include_schema=True)
        con = sqlite3.connect(path)
        with open(os.path.join(d, "x.sql")) as fp:
            con.executescript(fp.read())
    else:
        tdf.sql.write_db_schema(path)
        con = sqlite3.connect(path)
    try:
        require_eq(sorted(r[0] for r in con.execute("select name from sqlite_master where type='table'")), sorted(spec["tables"]), "tables of the schema")
        for t, (pks, dfs) in spec["tables"].items():
            info = list(con.execute("pragma table_info([%s])" % t))
            require_eq([r[1] for r in info], pks + dfs, "columns of %s" % t)
            require_eq([r[1] for r in sorted((r for r in info if r[5]), key=lambda r: r[5])], pks, "primary key of %s" % t)
            got = {}
            for r in con.execute("pragma foreign_key_list([%s])" % t):
                got.setdefault(r[0], []).append((r[2], r[3], r[4]))
            want = sorted(sorted((ft, a, b) for a, b in m) for nt, ft, m in spec["fks"] if nt == t)
            require_eq(sorted(sorted(v) for v in got.values()), want, "foreign keys of %s" % t)
            # a row with the keys only has the defaults; the same keys again are refused
            if pks:
                ins = "insert into [%s] (%s) values (%s)" % (t, ",".join("[%s]" % f for f in pks), ",".join("?" for _ in pks))
                con.execute(ins, ["k"] * len(pks))
                try:
                    con.execute(ins, ["k"] * len(pks))
                    dup = True
                except sqlite3.IntegrityError:
                    dup = False
                require(not dup, "%s accepts the same key twice", t)
                defs = [spec["defaults"].get(t, {}).get(f, 0) for f in dfs]
                if dfs:
                    row = rows_in(con, t, dfs)[0]
                    require_eq([gen.norm(c) for c in row], [gen.norm("True" if c is True else c) for c in defs], "defaults of %s" % t)
                con.execute("delete from [%s]" % t)
                ctx.nontrivial("keyed table")
        con.commit()
        con.close()
        # the schema takes the data, and the data can be written when foreign keys are circular
        dat = gen.make_td(tdf, spec, data)
        tdf.sql.write_db_data(dat, path)
        require_eq(gen.diff_content(data, gen.td_content(spec, tdf.sql.create_tic_dat(path))), None, "data written into the schema")
        con = sqlite3.connect(path)
        for nt, ft, m in spec["fks"]:
            if nt == ft:
                ctx.label("self reference")
            if len(m) > 1:
                ctx.label("compound")
    finally:
        con.close()


FACETS = [
    Facet("ticdat", check_td, _td, quick=2500, rule="a non-empty table was written and read"),
    Facet("pandat", check_pd, _pd, quick=900, rule="a non-empty table was written and read"),
    Facet("schema", check_schema, _schema, quick=1500, rule="some table has a primary key"),
]
