import datetime, re
from hypothesis import strategies as st
from .. import gen, pg
from ..core import Facet, require, require_eq, fail, interpreting
from .p18 import rows_differ
from .p17 import DT

SERVICE = "pg"
TECHNIQUE = ("property-based testing (Hypothesis): schemas with foreign keys and typed data written to a private PostgreSQL server, the rows checked with "
             "direct SQL, read back by both factories; histories of delete/append writes and outside edits against a per-table model")
NOTE = ("Runs a real PostgreSQL server of its own. Random models with foreign keys onto full primary keys (and, in a facet of its own, any graph of them), numpy numbers, text/number/integer/boolean/timestamp "
        "fields, nulls, infinities and flags, defaults, parameters, 2 connection styles, plain and bulk (dsn) writes, active fields. Excluded: integers beyond "
        "32 bits in integer columns, NUL in text, undeclared fields with data other than the documented text/float assumption.")
INF = float("inf")
TABLES = ["foods", "categories", "nutrition_quantities", "a", "bb", "sites", "cost_curve", "t1", "plan_x_y", "order_lines", "z9", "foods_by_site", "t10", "bb_a", "a_x"]
FIELDS = ["key", "qty", "cost", "min nutrition", "Max_Nutrition", "x", "y1", "Supply Amount", "code", "id_no", "Label!", "w-1", "unit cost per lb",
          "z z", "Name", "pct%", "2nd", "a:b"]
TEXTS = ["", "a", "A", "it's", "x,y", "é日本", "100%", ":p", "%s", "%(x)s", "\\", "a\\'b", "\"q\"", "null", "NULL", "None", "nan", "inf", "-inf", "1", "007",
         "2.50", "true", " a ", "a\nb", "tab\there", "{}", "--", "; drop table x", "2020-01-01"]
TEXT = st.one_of(st.sampled_from(TEXTS), st.text("abcXYZ 12_,;'\"-é\\%:", max_size=6))
NUM = st.one_of(st.integers(-5, 90), st.sampled_from([0.5, -0.25, 1e-9, 123456.789, 1e15, 2.5e-300, 1e200, 0.1, 1 / 3, 2 ** 53, 3.0]),
                st.floats(allow_nan=False, allow_infinity=False, min_value=-1e12, max_value=1e12))
INT = st.one_of(st.integers(-5, 90), st.sampled_from([2 ** 31 - 1, -2 ** 31]))
DATES = DT + [datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59, 999999)]
PDATES = [d for d in DATES if 1700 < d.year < 2200]


def pg_name(f):
    s = "".join(c if c.isalnum() else "_" for c in f.lower())
    return "_" + s[1:] if s[0].isdigit() else s


TY_TEXT = lambda null: [False, True, True, 0, INF, False, "*", null, False]
TY_NUM = lambda null, lo=-INF, hi=INF: [True, True, True, lo, hi, False, [], null, False]
TY_INT = lambda null: [True, True, True, -2.0 ** 31, 2.0 ** 31, True, [], null, False]
TY_DATE = lambda null: [False, True, True, 0, INF, False, [], null, True]


@st.composite
def field_kind(draw, is_pk, flag, pan):
    """[kind, type rule or None, default, forced postgres type, nullable in the data]"""
    null = not is_pk and draw(st.booleans())
    k = draw(st.sampled_from(["text", "num", "int", "date", "raw", "bool", "floor"] if not is_pk else ["text", "int", "date", "raw", "num", "text"]))
    dflt = "unset"
    if k == "text":
        if draw(st.booleans()):
            dflt = draw(TEXT)
        return [k, TY_TEXT(null), dflt, None, null]
    if k == "num":
        if draw(st.integers(0, 2)) == 0:
            dflt = draw(st.one_of(NUM, st.sampled_from([INF, -INF])))
        return [k, TY_NUM(null or flag is None), dflt, None, null]
    if k == "floor":
        return [k, TY_NUM(False, -2, INF), draw(st.sampled_from(["unset", INF, 5])), None, False]
    if k == "int":
        return [k, TY_INT(null), draw(st.sampled_from(["unset", 3])), None, null]
    if k == "date":
        return [k, TY_DATE(null), draw(st.sampled_from(["unset", None])), None, null]
    if k == "bool":
        return [k, None, draw(st.sampled_from(["unset", True, False])), draw(st.sampled_from(["bool", "boolean"])), draw(st.booleans())]
    if is_pk:
        return ["text", None, "unset", draw(st.sampled_from([None, "text"])), False]
    if draw(st.integers(0, 3)) == 0:
        return ["text", None, draw(st.sampled_from(["unset", "it's", ""])), "text", True]
    return ["num", None, draw(st.sampled_from(["unset", 2.5, -1])), draw(st.sampled_from([None, "float"])), True]


def value(draw, kind, flag, is_pk, pan):
    k, ty, _, _, null = kind
    if null and not is_pk and draw(st.integers(0, 3)) == 0:
        return None
    if k == "text":
        return draw(TEXT)
    if k == "int":
        return draw(INT)
    if k == "date":
        return draw(st.sampled_from(PDATES if pan else DATES))
    if k == "bool":
        return draw(st.booleans())
    inf = [] if is_pk or (flag is None and k != "floor") else [INF] if k == "floor" else [INF, -INF]
    if k == "floor":
        return draw(st.one_of(st.integers(-2, 50), st.sampled_from([0.5] + inf)))
    v = draw(st.one_of(NUM, NUM, st.sampled_from(inf))) if inf else draw(NUM)
    return v


def clip(v, flag):
    """a number that the flag does not swallow"""
    if isinstance(flag, (int, float)) and isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) != INF and abs(v) >= flag:
        return v % 100 if flag > 100 else 1
    return v


@st.composite
def model(draw, pan=False, max_tables=4):
    flag = draw(st.sampled_from(["N/A", "N/A", None, 1e6, 999]))
    names = draw(st.lists(st.sampled_from(TABLES), min_size=1, max_size=max_tables, unique=True))
    tabs, kinds, fks = {}, {}, []
    for i, t in enumerate(names):  # foreign tables first
        fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=6, unique_by=pg_name))
        npk = draw(st.integers(0, min(3, len(fs))))
        tabs[t] = [fs[:npk], fs[npk:]]
        kinds[t] = {f: draw(field_kind(f in fs[:npk], flag, pan)) for f in fs}
        free = list(fs)
        for _ in range(draw(st.integers(0, 2)) if i else 0):
            ft = names[draw(st.integers(0, i - 1))]
            ffs = tabs[ft][0]
            if not ffs or len(ffs) > len(free) or any(k[1] == ft for k in fks if k[0] == t):
                continue
            nat = draw(st.permutations(free))[:len(ffs)]
            order = draw(st.permutations(list(range(len(ffs)))))
            fks.append([t, ft, [[nat[j], ffs[j]] for j in order]])
            for a, b in zip(nat, ffs):
                kinds[t][a] = list(kinds[ft][b])
                if a in fs[npk:]:
                    kinds[t][a][4] = False
                    if not kinds[t][a][1]:
                        kinds[t][a][3] = "text"
                free.remove(a)
    order = draw(st.permutations(names))
    spec = {"tables": {t: tabs[t] for t in order}, "fks": fks, "inf": flag,
            "types": {t: {f: k[1] for f, k in kinds[t].items() if k[1]} for t in names},
            "defaults": {t: {f: k[2] for f, k in kinds[t].items() if not isinstance(k[2], str) or k[2] != "unset"} for t in names}}
    for t in names:
        spec["defaults"][t] = {f: v for f, v in spec["defaults"][t].items() if f in tabs[t][1]}
    forced = [[t, f, k[3]] for t in names for f, k in kinds[t].items() if k[3]]
    return {"spec": spec, "forced": forced, "kinds": kinds, "order": names}


@st.composite
def data_of(draw, m, pan=False, lo=0, hi=5):
    spec, kinds = m["spec"], m["kinds"]
    out = {}
    for t in m["order"]:
        pks, dfs = spec["tables"][t]
        fs = pks + dfs
        rows, seen = [], set()
        fks = [(ft, mp) for nt, ft, mp in spec["fks"] if nt == t]
        n = draw(st.integers(lo, hi))
        if any(not out[ft] for ft, _ in fks):
            n = 0
        for _ in range(n):
            d = {f: clip(value(draw, kinds[t][f], spec["inf"], f in pks, pan), spec["inf"]) for f in fs}
            for ft, mp in fks:
                src = dict(zip(sum(spec["tables"][ft], []), draw(st.sampled_from(out[ft]))))
                for a, b in mp:
                    d[a] = src[b]
            r = [d[f] for f in fs]
            k = tuple(r[:len(pks)])
            if pks and k in seen:
                continue
            seen.add(k)
            rows.append(r)
        out[t] = rows
    return out


@st.composite
def params_of(draw, m):
    """adds a parameters table; returns its rows"""
    spec = m["spec"]
    if draw(st.integers(0, 2)):
        return None
    spec["tables"]["parameters"] = [["Name Of"], ["Val"]]
    spec["params"], rows = {}, []
    for p in draw(st.lists(st.sampled_from(["alpha", "b 2", "It's", "gamma"]), max_size=3, unique=True)):
        k = draw(st.sampled_from(["num", "text", "date", "int", "nulltext"]))
        ty, dv, vals = {"num": (TY_NUM(False), 1.5, [0.25, 7, 1e-9, INF, 12345.678]), "text": (TY_TEXT(False), "d", ["x", "it's", "007", "1.50", "b c", "inf"]),
                        "nulltext": (TY_TEXT(True), None, ["x", None, "%"]), "date": (TY_DATE(False), "Dec 15 1970", PDATES),
                        "int": (TY_INT(False), 3, [0, 5, 10 ** 12])}[k]
        if k == "int":
            vals = [0, 5, 10 ** 6]
        spec["params"][p] = [ty, dv]
        if draw(st.integers(0, 3)):
            rows.append([p, draw(st.sampled_from(vals))])
    return rows


def forced_of(case):
    return {(t, f): ty for t, f, ty in case["m"]["forced"]}


class Link:
    """an engine or connection in one of the supported styles"""
    def __init__(self, style):
        self.style = style

    def __enter__(self):
        if self.style == "engine":
            self.cn = None
            return pg.engine()
        self.cn = pg.engine(self.style == "future").connect()
        return self.cn

    def __exit__(self, *a):
        if self.cn is not None:
            self.cn.close()


def drop(schema):
    pg.query("drop schema if exists %s cascade" % schema)


def in_db(spec, t, f, v):
    """the SQL value that must be stored"""
    flag = spec["inf"]
    if t == "parameters" or isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
        return v
    if flag is None and abs(v) == INF:
        ty = (spec["types"].get(t) or {}).get(f)
        return None if ty and not ty[7] and (ty[4] if v > 0 else -ty[3]) == INF else v
    if isinstance(flag, (int, float)):
        return max(min(v, flag), -flag)
    return v


def stored_rows(schema, t, fs):
    return pg.query("select %s from %s.%s" % (", ".join(map(pg_name, fs)), schema, t))


def skey(r):
    return repr([(str(type(c)) if not isinstance(c, (int, float)) or isinstance(c, bool) else "n",
                  float(c) if isinstance(c, (int, float)) else str(c)) for c in r])


def unordered(rows):
    return sorted((list(r) for r in rows), key=skey)


def check_tables(spec, schema, data, what, extra_cols=None):
    for t, rows in data.items():
        if t == "parameters":
            continue
        fs = sum(spec["tables"][t], [])
        want = [[in_db(spec, t, f, v) for f, v in zip(fs, r)] for r in rows]
        require_eq(rows_differ(unordered(want), unordered(stored_rows(schema, t, fs))), None, "%s: rows of %s in the database" % (what, t))


@st.composite
def _rt(draw, pan):
    m = draw(model(pan))
    params = draw(params_of(m))
    data = draw(data_of(m, pan))
    return {"m": m, "data": data, "params": params, "style": draw(st.sampled_from(["engine", "connection", "future"])), "dsn": draw(st.sampled_from([0, 0, 1, 2])),
            "ancillary": draw(st.integers(0, 3)) > 0, "dress": draw(st.booleans()), "freeze": draw(st.booleans()), "reader": draw(st.sampled_from(["same", "other"])), "pan": pan,
            "twice": draw(st.booleans()), "numpy": not pan and draw(st.integers(0, 2)) == 0, "managed": [t for t in m["order"] if pan and draw(st.integers(0, 3)) == 0]}


def make(case, pan, data, spec):
    full = dict(data)
    if case.get("params") is not None:
        full["parameters"] = case["params"]
    if pan:
        f = gen.pdf_of(spec)
        return f, gen.dress(gen.make_pd(f, spec, full), spec) if case.get("dress") else gen.make_pd(f, spec, full), full
    f = gen.tdf_of(spec)
    return f, gen.make_td(f, spec, full), full


def read_back(case, spec, full, schema, cn, pan, what, ctx):
    f = gen.pdf_of(spec) if pan else gen.tdf_of(spec)
    msgs = []
    if pan:
        back = f.pgsql.create_pan_dat(cn, schema)
        require(f.good_pan_dat_object(back, msgs.append), "%s not good: %s", what, msgs)
        got = gen.pd_content(spec, back)
    else:
        back = f.pgsql.create_tic_dat(cn, schema, **({"freeze_it": True} if case.get("freeze") else {}))
        require(f.good_tic_dat_object(back, msgs.append), "%s not good: %s", what, msgs)
        got = gen.td_content(spec, back)
    for t, rows in full.items():
        g = got[t]
        if pan or any(c is None for r in rows for c in r):
            g = [[None if isinstance(c, float) and c != c else c for c in r] for r in g]
            g = [[None if c is not None and str(c) == "NaT" else c for c in r] for r in g]
        require_eq(rows_differ(unordered(rows), unordered(g)), None, "%s: rows of %s" % (what, t))


def manager(t, log):
    class M:
        def __enter__(self):
            log.append((t, "in"))

        def __exit__(self, *a):
            log.append((t, "out"))
    return M


class Told:
    def __init__(self, log):
        self.log = log

    def numerical_progress(self, theme, x):
        self.log.append(x)
        return True


def as_numpy(c):
    import numpy
    if type(c) is int and abs(c) < 2 ** 63:
        return numpy.int64(c)
    return numpy.float64(c) if type(c) is float else c


def check_rt(case, ctx):
    pan, m = case["pan"], case["m"]
    spec, data = m["spec"], case["data"]
    f, dat, full = make(case, pan, data, spec)
    if case.get("numpy"):  # as when the rows were taken from a DataFrame
        args = {t: [[as_numpy(c) for c in r] for r in rows] for t, rows in full.items()}
        dat = f.TicDat(**{t: rows if spec["tables"][t][1] or len(spec["tables"][t][0]) > 1 else [r[0] for r in rows] for t, rows in args.items()})
        ctx.label("numpy numbers")
    schema = pg.fresh_schema()
    try:
        with Link(case["style"]) as cn:
            f.pgsql.write_schema(cn, schema, forced_field_types=forced_of(case), **({} if case["ancillary"] else {"include_ancillary_info": False}))
            kw = {}
            if case["dsn"] and not pan:
                kw["dsn"] = pg.dsn() if case["dsn"] == 1 else " ".join("%s=%s" % kv for kv in pg.dsn().items())
                ctx.label("bulk write")
            entered, told = [], []
            if case["managed"]:
                kw["table_specific_context_manager"] = {t: manager(t, entered) for t in case["managed"]}
                kw["progress"] = Told(told)
            f.pgsql.write_data(dat, cn, schema, **kw)
            if case["managed"]:
                require_eq(sorted(entered), sorted((t, w) for t in case["managed"] for w in ("in", "out")), "context managers entered")
                require(told == sorted(told) and all(0 <= x <= 100 for x in told) and len(told) == len(spec["tables"]), "progress reported: %s", told)
                kw.pop("progress")
                ctx.label("context managers")
            if case["twice"]:
                f.pgsql.write_data(dat, cn, schema, **kw)
            require_eq(gen.diff_content(full, gen.pd_content(spec, dat) if pan else gen.td_content(spec, dat)), None, "the data in memory after the write")
            check_tables(spec, schema, data, "after the write")
            read_back(case, spec, full, schema, cn, pan, "data read back", ctx)
            if case["reader"] == "other":
                read_back(case, spec, full, schema, cn, not pan, "data read back by the other factory", ctx)
                ctx.label("other factory")
    finally:
        drop(schema)
    if any(data.values()):
        ctx.nontrivial("rows")
        if spec["fks"] and any(data[t] for t, _, _ in spec["fks"]):
            ctx.label("foreign keys")
        if spec.get("params"):
            ctx.label("parameters")
        ctx.label(case["style"])


# ---------------------------------------------------------------- histories of writes
ACTIVE = "is_active"


@st.composite
def _history(draw):
    m = draw(model(max_tables=3))
    names = m["order"]
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["write", "write", "deactivate"]))
        if k == "write":
            modes = {t: draw(st.sampled_from(["delete", "append"])) for t in names if draw(st.booleans())}
            steps.append({"op": k, "data": draw(data_of(m, pan=True, hi=4)), "modes": modes if modes or draw(st.booleans()) else None,
                          "pan": draw(st.booleans()), "style": draw(st.sampled_from(["engine", "connection", "future"])),
                          "dsn": draw(st.booleans()), "active": draw(st.integers(0, 3)) > 0})
        else:
            steps.append({"op": k, "table": draw(st.sampled_from(names)), "which": draw(st.integers(0, 4)), "value": draw(st.sampled_from([False, False, None]))})
    return {"m": m, "steps": steps, "active": [t for t in names if draw(st.booleans())]}


def check_history(case, ctx):
    m = case["m"]
    spec, names = m["spec"], m["order"]
    tdf, pdf = gen.tdf_of(spec), gen.pdf_of(spec)
    schema, other = pg.fresh_schema(), pg.fresh_schema()
    fsof = {t: sum(spec["tables"][t], []) for t in names}
    npk = {t: len(spec["tables"][t][0]) for t in names}
    state = {t: [] for t in names}  # [stored row, active]
    orig = {t: [] for t in names}
    try:
        for s in (schema, other):
            tdf.pgsql.write_schema(pg.engine(), s, forced_field_types=forced_of(case))
        for t in case["active"]:
            pg.query("alter table %s.%s add column %s boolean" % (schema, t, ACTIVE))
        pg.query("create table %s.bystander (x integer primary key)" % schema)
        pg.query("insert into %s.bystander values (1), (2)" % schema)
        other_data = case["steps"][0].get("data")
        if other_data:
            tdf.pgsql.write_data(gen.make_td(tdf, spec, other_data), pg.engine(), other)
        for step in case["steps"]:
            if step["op"] == "deactivate":
                t = step["table"]
                rows = [i for i in range(len(state[t]))]
                if t not in case["active"] or not npk[t] or not rows:
                    continue
                i = rows[step["which"] % len(rows)]
                pks = spec["tables"][t][0]
                pg.query("update %s.%s set %s = %%s where %s" % (schema, t, ACTIVE, " and ".join("%s = %%s" % pg_name(f) for f in pks)),
                         [step["value"]] + state[t][i][0][:npk[t]])
                state[t][i][1] = False
                ctx.label("deactivated")
                continue
            modes = dict(step["modes"] or {})
            eff = lambda t: modes.get(t, "delete")
            for _ in names:  # what appended rows refer to has to stay
                for nt, ft, mp in spec["fks"]:
                    if eff(nt) == "append" and eff(ft) == "delete":
                        modes[ft] = "append"
            data = {}
            for t in names:
                kept = {tuple(e[0][:npk[t]]) for e in state[t]} if eff(t) == "append" else set()
                data[t] = [r for r in step["data"][t]
                           if not npk[t] or tuple(in_db(spec, t, f, v) for f, v in zip(fsof[t], r[:npk[t]])) not in kept]
            f = pdf if step["pan"] else tdf
            dat = gen.make_pd(f, spec, data) if step["pan"] else gen.make_td(f, spec, data)
            kw = {"pre_existing_rows": modes} if step["modes"] is not None or modes else {}
            if step["active"]:
                kw["active_fld"] = ACTIVE
            if step["dsn"] and not step["pan"]:
                kw["dsn"] = pg.dsn()
            with Link(step["style"]) as cn:
                f.pgsql.write_data(dat, cn, schema, **kw)
            for t in names:
                if eff(t) == "delete":
                    state[t] = []
                elif state[t] and data[t]:
                    ctx.label("appended to rows")
                state[t] = state[t] + [[[in_db(spec, t, g, v) for g, v in zip(fsof[t], r)], step["active"] and t in case["active"], r] for r in data[t]]
            for t in names:
                cols = fsof[t] + ([ACTIVE] if t in case["active"] else [])
                want = [e[0] + ([True if e[1] else None] if t in case["active"] else []) for e in state[t]]
                got = stored_rows(schema, t, cols)
                if t in case["active"]:
                    got = [r[:-1] + [r[-1] or None] for r in got]
                require_eq(rows_differ(unordered(want), unordered(got)), None, "rows of %s after a write" % t)
            for use in (False, True):
                for fac in (tdf, pdf):
                    kw = {"active_fld": ACTIVE} if use else {}
                    with Link(step["style"]) as cn:
                        back = fac.pgsql.create_pan_dat(cn, schema, **kw) if fac is pdf else fac.pgsql.create_tic_dat(cn, schema, **kw)
                    got = gen.pd_content(spec, back) if fac is pdf else gen.td_content(spec, back)
                    for t in names:
                        want = [e[2] for e in state[t] if not use or t not in case["active"] or e[1]]
                        g = [[None if c is None or c != c or str(c) == "NaT" else c for c in r] for r in got[t]]
                        require_eq(rows_differ(unordered(want), unordered(g)), None, "rows of %s read%s" % (t, " with active_fld" if use else ""))
        require_eq(pg.query("select * from %s.bystander order by x" % schema), [[1], [2]], "another table of the schema")
        if other_data:
            check_tables(spec, other, other_data, "another schema")
    finally:
        drop(schema)
        drop(other)
    if sum(s["op"] == "write" for s in case["steps"]) > 1 and any(state.values()):
        ctx.nontrivial("several writes")


# ---------------------------------------------------------------- foreign keys that go round in circles
@st.composite
def _cycles(draw):
    names = draw(st.lists(st.sampled_from(TABLES), min_size=1, max_size=3, unique=True))
    tabs, fks = {t: [["key"], ["qty"]] for t in names}, []
    for i in range(draw(st.integers(1, 4))):
        a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        tabs[a][1].append("ref %d" % i)
        fks.append([a, b, [["ref %d" % i, "key"]]])
    number = st.integers(0, 4)
    rows = {t: draw(st.lists(st.tuples(*[number] * (1 + len(tabs[t][1]))).map(list), max_size=4, unique_by=lambda r: r[0])) for t in names}
    return {"tables": tabs, "fks": fks, "data": rows, "pan": draw(st.booleans()), "style": draw(st.sampled_from(["engine", "connection", "future"])),
            "dsn": draw(st.booleans()), "more": draw(st.booleans())}


def check_cycles(case, ctx):
    tabs, data = case["tables"], {t: [list(r) for r in rows] for t, rows in case["data"].items()}
    spec = {"tables": tabs, "fks": case["fks"], "inf": "N/A", "types": {t: {f: TY_INT(False) for f in sum(v, [])} for t, v in tabs.items()}, "defaults": {}}
    # the keys can only be declared in the database when each one refers to its own table, and then the parents have to come first
    own = all(a == b for a, b, _ in case["fks"])
    if own:
        for t, rows in data.items():
            known = []
            for r in rows:
                for a, _, mp in case["fks"]:
                    j = 1 + tabs[t][1].index(mp[0][0]) if a == t else None
                    if j and r[j] not in known:
                        r[j] = r[0]
                known.append(r[0])
    f = gen.pdf_of(spec) if case["pan"] else gen.tdf_of(spec)
    dat = gen.make_pd(f, spec, data) if case["pan"] else gen.make_td(f, spec, data)
    schema = pg.fresh_schema()
    try:
        with interpreting("foreign keys in circles"), Link(case["style"]) as cn:
            f.pgsql.write_schema(cn, schema, **({} if own else {"include_ancillary_info": False}))
            for _ in range(1 + case["more"]):
                f.pgsql.write_data(dat, cn, schema, **({"dsn": pg.dsn()} if case["dsn"] and not case["pan"] else {}))
            check_tables(spec, schema, data, "after the write")
            for pan in (False, True):
                read_back(case, spec, data, schema, cn, pan, "data read back", ctx)
    finally:
        drop(schema)
    if any(data.values()):
        ctx.nontrivial("declared in the database" if own else "not declared in the database")


# ---------------------------------------------------------------- the schema in the database
@st.composite
def _schema(draw):
    m = draw(model(max_tables=3))
    return {"m": m, "data": draw(data_of(m, lo=1, hi=3)), "ancillary": draw(st.integers(0, 2)) > 0, "pan": draw(st.booleans())}


COLUMN = {"text": "text", "num": "double precision", "floor": "double precision", "int": "integer", "date": "timestamp without time zone", "bool": "boolean"}


def refused(sql, args):
    import psycopg2
    try:
        pg.query(sql, args)
    except psycopg2.IntegrityError:
        return True
    return False


def check_schema(case, ctx):
    m = case["m"]
    spec, data, names = m["spec"], case["data"], m["order"]
    f = gen.pdf_of(spec) if case["pan"] else gen.tdf_of(spec)
    schema = pg.fresh_schema()
    anc = case["ancillary"]
    try:
        f.pgsql.write_schema(pg.engine(), schema, forced_field_types=forced_of(case), **({} if anc else {"include_ancillary_info": False}))
        require_eq(sorted(r[0] for r in pg.query("select table_name from information_schema.tables where table_schema = %s", [schema])), sorted(names), "tables")
        for t in names:
            pks, dfs = spec["tables"][t]
            fs = pks + dfs
            cols = {r[0]: r for r in pg.query("select column_name, data_type, is_nullable from information_schema.columns where table_schema = %s and table_name = %s", [schema, t])}
            require_eq(sorted(cols), sorted(map(pg_name, fs)), "columns of %s" % t)
            for g in fs:
                k = m["kinds"][t][g]
                c = cols[pg_name(g)]
                require_eq(c[1], COLUMN[k[0]], "column type of %s.%s" % (t, g))
                if g in dfs:
                    ty = k[1]
                    want = "YES" if not ty or ty[7] or (ty[0] and spec["inf"] is None) else "NO"
                    require_eq(c[2], want, "nullability of %s.%s" % (t, g))
        require_eq(f.pgsql.check_tables_fields(pg.engine(), schema), [], "missing tables")
        ins = lambda t, d: ("insert into %s.%s (%s) values (%s)" % (schema, t, ", ".join(map(pg_name, d)), ", ".join(["%s"] * len(d))), list(d.values()))
        for t in names:
            fs = sum(spec["tables"][t], [])
            for r in data[t]:
                pg.query(*ins(t, dict(zip(fs, [in_db(spec, t, g, v) for g, v in zip(fs, r)]))))
        for t in names:
            pks, dfs = spec["tables"][t]
            if pks and data[t]:
                fs = pks + dfs
                again = dict(zip(fs, [in_db(spec, t, g, v) for g, v in zip(fs, data[t][0])]))
                require_eq(refused(*ins(t, again)), anc, "a second row with the same key is refused in %s" % t)
                ctx.label("key constraint")
        if anc:
            for nt, ft, mp in spec["fks"]:
                if not data[nt]:
                    continue
                fs = sum(spec["tables"][nt], [])
                d = dict(zip(fs, [in_db(spec, nt, g, v) for g, v in zip(fs, data[nt][0])]))
                odd = {"text": "no such key", "int": -777, "num": -777.25, "floor": -777.25, "date": datetime.datetime(1888, 8, 8), "bool": True}
                for nf, ff in mp:
                    d[nf] = odd[m["kinds"][nt][nf][0]]
                if m["kinds"][nt][mp[0][0]][0] != "bool":
                    require_eq(refused(*ins(nt, d)), True, "an orphan row is refused in %s" % nt)
                    ctx.label("foreign key constraint")
        # a row inserted with nothing but its key and foreign keys gets the default values
        for t in names:
            pks, dfs = spec["tables"][t]
            if not data[t]:
                continue
            fs = pks + dfs
            in_fk = {nf for nt, ft, mp in spec["fks"] if nt == t for nf, _ in mp}
            d = dict(zip(fs, [in_db(spec, t, g, v) for g, v in zip(fs, data[t][0])]))
            rest, given = [], {}
            for g in dfs:
                k = m["kinds"][t][g]
                dv = spec["defaults"][t].get(g, 0)
                if g in in_fk or k[0] in ("date",) or dv in (None, "") or (k[0] == "text" and dv == 0) or isinstance(dv, bool) != (k[0] == "bool") or \
                        (spec["inf"] is None and isinstance(dv, float) and abs(dv) == INF):
                    given[g] = d[g]
                else:
                    rest.append((g, in_db(spec, t, g, dv) if isinstance(dv, float) and abs(dv) == INF else dv))
            if not rest or (not pks and not given):
                continue
            pg.query("set session_replication_role = replica")
            try:
                pg.query("delete from %s.%s" % (schema, t))
            finally:
                pg.query("set session_replication_role = default")
            pg.query(*ins(t, {**{g: d[g] for g in pks}, **given}))
            got = pg.query("select %s from %s.%s" % (", ".join(pg_name(g) for g, _ in rest), schema, t))
            require_eq(rows_differ([[v for _, v in rest]], got), None, "default values of %s" % t)
            ctx.label("defaults")
            break
    finally:
        drop(schema)
    if any(data.values()):
        ctx.nontrivial("schema")


# ---------------------------------------------------------------- duplicates
@st.composite
def _dups(draw):
    m = draw(model(max_tables=2))
    m["spec"]["fks"] = []
    rows = {}
    data = draw(data_of(m, lo=1, hi=4))
    for t in data:
        rows[t] = [[r, draw(st.sampled_from([True, True, False]))] for r in data[t] for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    return {"m": m, "rows": rows, "active": draw(st.booleans())}


def check_dups(case, ctx):
    m = case["m"]
    spec = m["spec"]
    spec = {**spec, "fks": []}
    tdf = gen.tdf_of(spec)
    schema = pg.fresh_schema()
    try:
        tdf.pgsql.write_schema(pg.engine(), schema, forced_field_types=forced_of(case), include_ancillary_info=False)
        want = {}
        for t, rows in case["rows"].items():
            pks, dfs = spec["tables"][t]
            fs = pks + dfs
            if case["active"]:
                pg.query("alter table %s.%s add column %s boolean" % (schema, t, ACTIVE))
            n = {}
            for r, act in rows:
                vals = [in_db(spec, t, f, v) for f, v in zip(fs, r)] + ([act] if case["active"] else [])
                pg.query("insert into %s.%s values (%s)" % (schema, t, ", ".join(["%s"] * len(vals))), vals)
                if act or not case["active"]:
                    k = r[0] if len(pks) == 1 else tuple(r[:len(pks)])
                    n[k] = n.get(k, 0) + 1
            n = {k: c for k, c in n.items() if c > 1}
            if n and pks:
                want[t] = n
        got = tdf.pgsql.find_duplicates(pg.engine(), schema, **({"active_fld": ACTIVE} if case["active"] else {}))
        require_eq({t: dict(d) for t, d in got.items()}, want, "duplicates")
    finally:
        drop(schema)
    if want:
        ctx.nontrivial("duplicates")


# ---------------------------------------------------------------- requests that must be refused
def bad_requests():
    return [{"what": w, "pan": pan} for pan in (False, True) for w in
            ("no schema", "no table", "no field", "bad mode", "bad mode table", "mode not a dict", "bad active", "table name", "field names collide",
             "reserved word", "generic", "both types", "neither type", "bad forced type", "forced unknown field", "not the right data", "missing table reads empty")]


def check_bad(case, ctx):
    from ticdat import TicDatFactory, PanDatFactory
    from ticdat.utils import TicDatError
    pan, w = case["pan"], case["what"]
    cls = PanDatFactory if pan else TicDatFactory
    f = cls(sites=[["Name"], ["Cap"]], flows=[["Src", "Dst"], ["Qty"]])
    f.add_foreign_key("flows", "sites", ["Src", "Name"])
    mk = lambda fac, **kw: (fac.PanDat if pan else fac.TicDat)(**kw)
    read = lambda fac, s, **kw: (fac.pgsql.create_pan_dat if pan else fac.pgsql.create_tic_dat)(pg.engine(), s, **kw)
    rows = {"sites": [["a", 1], ["b", 2]], "flows": [["a", "b", 3], ["b", "b", 4]]}
    cols = {"sites": ["Name", "Cap"], "flows": ["Src", "Dst", "Qty"]}
    def dat_of(fac, ts):
        import pandas as pd
        return mk(fac, **{t: pd.DataFrame(rows[t], columns=cols[t]) if pan else rows[t] for t in ts})
    dat = dat_of(f, rows)
    schema = pg.fresh_schema()
    def content():
        return [sorted(pg.query("select * from %s.%s" % (schema, t))) for t in ("sites", "flows")]
    try:
        f.pgsql.write_schema(pg.engine(), schema)
        f.pgsql.write_data(dat, pg.engine(), schema)
        before = content()
        new = schema + "_x"
        bigger = cls(sites=[["Name"], ["Cap"]], flows=[["Src", "Dst"], ["Qty"]], extra=[["k"], ["v"]])
        wider = cls(sites=[["Name"], ["Cap", "Other"]], flows=[["Src", "Dst"], ["Qty"]])
        write = lambda fac=f, d=dat, s=schema, **kw: (lambda: fac.pgsql.write_data(d, pg.engine(), s, **kw))
        def schema_of(forced=None, **kw):
            def go():
                g = cls(**kw)
                g.pgsql.write_schema(pg.engine(), new, forced_field_types=forced)
            return go
        def typed(**kw):
            def go():
                g = cls(t=[["a"], ["b"]])
                g.set_data_type("t", "b", **kw)
                g.pgsql.write_schema(pg.engine(), new)
            return go
        def wrong_data():
            d = dat_of(f, ["sites"])
            setattr(d, "flows", 3)
            f.pgsql.write_data(d, pg.engine(), schema)
        if w == "missing table reads empty":
            back = read(bigger, schema)
            require_eq(len(back.extra), 0, "rows of the missing table")
            require_eq(len(back.flows), 2, "rows of a present table")
            require_eq(bigger.pgsql.check_tables_fields(pg.engine(), schema), ["extra"], "missing tables")
        else:
            tries = {"no schema": [write(s="nowhere"), lambda: read(f, "nowhere")],
                     "no table": [write(bigger, dat_of(bigger, rows)), lambda: bigger.pgsql.check_tables_fields(pg.engine(), schema, error_on_missing_table=True)],
                     "no field": [lambda: read(wider, schema), lambda: wider.pgsql.write_data(mk(wider), pg.engine(), schema)],
                     "bad mode": [write(pre_existing_rows={"flows": "keep"}), write(pre_existing_rows={"sites": None})],
                     "bad mode table": [write(pre_existing_rows={"flowz": "append"}), write(pre_existing_rows={"Flows": "append"})],
                     "mode not a dict": [write(pre_existing_rows="append"), write(pre_existing_rows=["flows"])],
                     "bad active": [write(active_fld="Is Active"), lambda: read(f, schema, active_fld="Is Active")],
                     "table name": [schema_of(Sites=[["a"], ["b"]]), schema_of(a_b=[["a"], []], Ab=[["a"], []])],
                     "field names collide": [schema_of(t=[["a b"], ["A_b"]]), schema_of(t=[["x"], ["a-b", "a b"]])],
                     "reserved word": [schema_of(t=[["Order"], ["b"]]), schema_of(t=[["a"], ["USER"]])],
                     "generic": [schema_of(t="*"), lambda: cls(t="*", u=[["a"], []]).pgsql.write_schema(pg.engine(), new, include_ancillary_info=False)],
                     "both types": [typed(number_allowed=True, strings_allowed="*")], "neither type": [typed(number_allowed=False, strings_allowed=[])], "bad forced type": [schema_of({("t", "a"): "varchar"}, t=[["a"], ["b"]])],
                     "forced unknown field": [schema_of({("t", "zz"): "text"}, t=[["a"], ["b"]]), schema_of({"a": "text"}, t=[["a"], ["b"]])],
                     "not the right data": [wrong_data]}[w]
            for i, go in enumerate(tries):
                try:
                    go()
                except TicDatError:
                    continue
                except Exception as e:
                    fail("%s (%d): raised %s: %s instead of TicDatError" % (w, i, type(e).__name__, str(e)[:200]))
                fail("%s (%d) was accepted" % (w, i))
            require_eq(pg.query("select count(*) from information_schema.tables where table_schema = %s", [new]), [[0]], "tables made by refused requests")
        require_eq(content(), before, "the database after refused requests")
    finally:
        drop(schema)
        drop(schema + "_x")
    ctx.nontrivial(w)


FACETS = [
    Facet("ticdat", check_rt, lambda: _rt(False), quick=400, rule="a non-empty table was written and read"),
    Facet("pandat", check_rt, lambda: _rt(True), quick=300, rule="a non-empty table was written and read"),
    Facet("history", check_history, _history, quick=240, rule="several writes into one schema left rows"),
    Facet("schema", check_schema, _schema, quick=240, rule="a schema with rows was checked"),
    Facet("cycles", check_cycles, _cycles, quick=120, rule="rows were written"),
    Facet("dups", check_dups, _dups, quick=160, rule="duplicated rows existed"),
    Facet("refused", check_bad, cases=bad_requests, rule="every kind of bad request"),
]
