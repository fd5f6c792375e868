import contextlib, os, sys, unittest.mock
from hypothesis import strategies as st
from .. import access, gen
if "ticdat" not in sys.modules:
    access.install()
from ..core import Excluded, Facet, require, require_eq, fail, interpreting
from .p18 import rows_differ

TECHNIQUE = ("property-based testing (Hypothesis) of the Access reader and writer against a stand-in for the ODBC driver (SQLite behind pyodbc's interface, with Access's column types enforced): "
             "write histories compared with a model of the file, foreign files read against a model")
NOTE = ("The driver exists on Windows only, so what is decided is the library's half: the statements it issues, the values it passes and what it does with the answers. "
        "Keyed, keyless, generator and parameters tables, all infinity flags, refused writes, files with other table and field spellings. No date columns; native infinities only under a flag.")
INF = gen.INF
NAMES = ["order", "Group", "select", "Values", "foods", "a_b", "My_Long_Table", "x", "table", "Sites", "plan_x_y"]
FLAGS = ["N/A", "N/A", 999, 1e6, None, None]
POOL = {"text": ["a", "b", "c d", "", "1", "1000000", "it's", 'q"t', "]x", "é日", "-5", "null"],
        "double": [0, 1, 2.5, -0.25, 7, 998.5, -3.75], "int": [0, 1, 2, 3, -4, 12]}
rule = lambda lo, hi, null=False, num=True, il=True, ih=True, strs=(): [num, il, ih, lo, hi, False, strs if strs == "*" else list(strs), null, False]


def dbs(d, name="data.accdb"):
    return os.path.join(d, name)


@st.composite
def schema(draw, params=True, default=False):
    """spec, column types, and the cells each column takes"""
    flag = draw(st.sampled_from(FLAGS))
    tabs = draw(gen.tables(1, 3, pool=NAMES))
    if draw(st.integers(0, 3)) == 0:
        for v in tabs.values():  # the same field names with other meanings in every table
            v[0], v[1] = (["key"] if v[0] else []), ["qty", "cost"][:max(1, len(v[1]))]
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "params": {}, "inf": flag}
    kinds, cells, nullable, bias = {}, {}, {}, {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            kinds[t, f] = ("text" if f in pks else "double") if default else draw(st.sampled_from(["text", "double", "int"]))
            pool = list(POOL[kinds[t, f]])
            if kinds[t, f] == "double":
                how = draw(st.sampled_from(["plain", "up", "down", "both"])) if f in dfs else draw(st.sampled_from(["plain", "plain", "up"]))
                if how == "up":
                    spec["types"].setdefault(t, {})[f] = rule(-100, INF)
                elif how == "down":
                    spec["types"].setdefault(t, {})[f] = rule(-INF, 5000)
                elif how == "both":
                    spec["types"].setdefault(t, {})[f] = rule(-INF, INF, null=True)
                if isinstance(flag, (int, float)):
                    pool += [INF, -INF] * 3
                elif flag is None and f in dfs and how in ("up", "down"):
                    bias[t, f] = INF if how == "up" else -INF
                    pool += [bias[t, f]] * 6
            if f in dfs and (t, f) not in bias and draw(st.booleans()):
                pool += [None] * 3
            cells[t, f] = pool
    if params and draw(st.integers(0, 2)) == 0:
        tabs["parameters"] = [["Name"], ["Val"]]
        spec["params"] = {"Size": [None, 3], "Mode": [rule(0, 1, num=False, strs="*"), "x"]}
        kinds["parameters", "Name"] = kinds["parameters", "Val"] = "text"
    spec["gens"] = [t for t, v in tabs.items() if not v[0] and draw(st.booleans())]
    return spec, kinds, cells, bias


def rows_of(draw, spec, cells):
    some = {**spec, "tables": {t: v for t, v in spec["tables"].items() if t != "parameters"}}
    data = draw(gen.data_for(some, lambda t, f: st.sampled_from(cells[t, f]), 0, 5))
    if "parameters" in spec["tables"]:
        data["parameters"] = draw(st.sampled_from([[], [["Size", 12]], [["Size", 2.5], ["Mode", "7"]], [["Size", INF], ["Mode", "a b"]], [["Mode", "inf"]]]))
    return data


def stored(spec, bias, t, f, v):
    if t == "parameters" or not isinstance(v, (int, float)) or abs(v) < INF:
        return v
    if isinstance(spec["inf"], (int, float)):
        return spec["inf"] if v > 0 else -spec["inf"]
    return None if bias.get((t, f)) == v else v


@st.composite
def history(draw):
    default = draw(st.integers(0, 3)) == 0
    spec, kinds, cells, bias = draw(schema(default=default))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["write", "write", "over", "foreign row", "reread"]))
        steps.append([k, rows_of(draw, spec, cells) if k != "reread" else {}])
    return {"spec": spec, "kinds": [[t, f, k] for (t, f), k in kinds.items()], "bias": [[t, f, v] for (t, f), v in bias.items()],
            "steps": steps, "ext": draw(st.sampled_from([".accdb", ".mdb"])), "freeze": draw(st.booleans()),
            "default": default}


def held(path, spec):
    con = access.Connection(path)
    try:
        out = {}
        for t, (pks, dfs) in spec["tables"].items():
            out[t] = con.execute("select %s from [%s]" % (", ".join("[%s]" % f for f in pks + dfs), t)).fetchall()
        return out
    finally:
        con.close()


def ticdat_of(tdf, spec, data):
    parts = {t: gen.td_table(spec, t, rows) for t, rows in data.items()}
    for t in spec["gens"]:
        if t in parts:
            parts[t] = (lambda rows: lambda: iter(rows))(parts[t])
    return tdf.TicDat(**parts)


def par(rows):
    """what parameter text stands for"""
    return [[str(k), str(v).lower()[:-2] if str(v).endswith(".0") else str(v).lower()] for k, v in rows]


def compare(spec, want, got, what):
    for t, rows in want.items():
        if t == "parameters":
            require_eq(sorted(par(got[t])), sorted(par(rows)), "%s of parameters" % what)
        else:
            order = lambda rs: sorted((list(r) for r in rs), key=lambda r: [str(gen.norm(c)) for c in r]) if spec["tables"][t][0] else [list(r) for r in rs]
            require_eq(rows_differ(order(rows), order(got[t])), None, "%s of %s" % (what, t))


@contextlib.contextmanager
def blank_database(d):
    """new .accdb files are copies of blank.accdb in the package's folder, where accdb_create_setup.py puts it: for now in d"""
    from ticdat import mdb
    if not hasattr(mdb, "_code_dir"):
        raise Excluded("no folder for the blank database")
    d = os.path.join(d, "package")
    os.makedirs(d, exist_ok=True)
    access.new_file(os.path.join(d, "blank.accdb"))
    with unittest.mock.patch.object(mdb, "_code_dir", lambda: d):
        yield


def usable():
    from ticdat import mdb
    require(getattr(mdb, "pyodbc", None) is not None, "the Access module does not find the pyodbc module")


def check_history(case, ctx):
    from ticdat.utils import TicDatError
    usable()
    spec = case["spec"]
    kinds, bias = {(t, f): k for t, f, k in case["kinds"]}, {(t, f): v for t, f, v in case["bias"]}
    tdf = gen.tdf_of(spec)
    path = dbs(ctx.tmpdir(), "data" + case["ext"])
    if case["default"]:
        path = path.replace(".mdb", ".accdb")
        with blank_database(ctx.tmpdir()):
            tdf.mdb.write_file(tdf.TicDat(), path)
    else:
        access.new_file(path)
    types = {}
    for (t, f), k in kinds.items():
        if t != "parameters" and k != ("text" if f in spec["tables"][t][0] else "double"):
            types.setdefault(t, {})[f] = k
    if not case["default"]:
        tdf.mdb.write_schema(path, **types)
    con = access.Connection(path)
    for t, (pks, dfs) in spec["tables"].items():
        cols = con.execute("pragma table_info([%s])" % t).fetchall()
        require_eq([c[1] for c in cols], pks + dfs, "columns of the new table %s" % t)
        require_eq([c[2].lower() for c in cols], [kinds[t, f] for f in pks + dfs], "column types of the new table %s" % t)
        require_eq([c[1] for c in sorted(cols, key=lambda c: c[5]) if c[5]], pks, "primary key of the new table %s" % t)
    con.close()
    model = {t: [] for t in spec["tables"]}
    for kind, data in case["steps"]:
        if kind in ("write", "over"):
            dat = ticdat_of(tdf, spec, data)
            before = held(path, spec)
            refused = kind == "write" and any(model.values())
            try:
                tdf.mdb.write_file(dat, path, allow_overwrite=kind == "over")
            except TicDatError as e:
                require(refused, "a write was refused: %s", e)
                require("allow_overwrite" in str(e), "the message does not say why: %s", e)
                require_eq(held(path, spec), before, "the file after a refused write")
                ctx.nontrivial("refused write")
            else:
                require(not refused, "a write onto existing rows without allow_overwrite was accepted")
                model = {t: [[stored(spec, bias, t, f, v) for f, v in zip(sum(spec["tables"][t], []), r)] for r in rows] for t, rows in data.items()}
                ctx.nontrivial("written" if any(model.values()) else "empty write")
            same = gen.diff_content(data, gen.td_content(spec, dat))
            require_eq(same, None, "the data in memory after the write")
        elif kind == "foreign row":
            con = access.Connection(path)
            for t, rows in data.items():
                have = {tuple(r[:len(spec["tables"][t][0])]) for r in model[t]}
                for r in rows:
                    n = len(spec["tables"][t][0])
                    r = [stored(spec, bias, t, f, v) for f, v in zip(sum(spec["tables"][t], []), r)]
                    if n and (tuple(r[:n]) in have or tuple(map(str, r[:n])) in {tuple(map(str, h)) for h in have}):
                        continue
                    have.add(tuple(r[:n]))
                    con.execute("insert into [%s] (%s) values (%s)" % (t, ", ".join("[%s]" % f for f in sum(spec["tables"][t], [])), ", ".join("?" * len(r))), r)
                    model[t].append(r)
            con.commit()
            con.close()
        with interpreting("the file"):
            compare(spec, model, held(path, spec), "stored rows")
        back = tdf.mdb.create_tic_dat(path, freeze_it=case["freeze"])
        want = {t: [[unstored(spec, bias, t, f, v) for f, v in zip(sum(spec["tables"][t], []), r)] for r in rows] for t, rows in model.items()}
        with interpreting("the data read"):
            got = gen.td_content(spec, back)
            for t in spec["gens"]:
                require(callable(getattr(back, t)), "generator table %s is not a generator", t)
        compare(spec, want, got, "data read")
        if "parameters" in spec["tables"]:
            for k, v in want["parameters"]:
                expect = v if k == "Mode" or not isinstance(v, str) else float(v)
                require_eq(gen.norm(back.parameters[k]["Val"]), gen.norm(expect), "parameter %s" % k)
        if any(abs(v) == INF for t, rows in want.items() if t != "parameters" for r in rows for v in r if isinstance(v, float)):
            ctx.label("infinity under %s" % spec["inf"])
        try:
            setattr(back, list(want)[0], [])
            frozen = False
        except Exception:
            frozen = True
        require_eq(frozen, case["freeze"], "frozen")
        require_eq(tdf.mdb.find_duplicates(path), {}, "duplicates in a table with a primary key")
    if spec["gens"]:
        ctx.label("generator tables")


def unstored(spec, bias, t, f, v):
    if t == "parameters":
        return v
    if isinstance(spec["inf"], (int, float)) and isinstance(v, (int, float)) and abs(v) >= spec["inf"]:
        return INF if v > 0 else -INF
    return bias[t, f] if v is None and spec["inf"] is None and (t, f) in bias else v


# ------------------------------------------------------------------------------------------- files made elsewhere
def respelled(draw, name):
    name = "".join(c if c != "_" or draw(st.booleans()) else " " for c in name)
    return draw(st.sampled_from([name, name.upper(), name.lower(), name.title()]))


@st.composite
def foreign_file(draw):
    spec, kinds, cells, bias = draw(schema(params=False))
    tables = []
    for t, (pks, dfs) in spec["tables"].items():
        how = draw(st.sampled_from(["there"] * 6 + ["missing", "twice", "no field"]))
        if how == "twice" and "_" not in t:
            how = "missing"
        fs = draw(st.permutations(pks + dfs))
        gone = draw(st.sampled_from(fs))
        if how == "no field":
            fs = [f for f in fs if f != gone]
        cols = [[f, draw(st.sampled_from([f, f.upper(), f.lower()])), kinds[t, f]] for f in fs]
        extra = draw(st.integers(0, 2)) == 0 or not cols
        if extra:
            cols.insert(draw(st.integers(0, len(cols))), [None, "Some Extra", "text"])
        rows = draw(st.lists(st.tuples(*[st.sampled_from(cells[t, f]) for f in pks + dfs]), max_size=6))
        if pks and rows and draw(st.integers(0, 2)) == 0:
            rows += [rows[0][:len(pks)] + draw(st.sampled_from(rows))[len(pks):] for _ in range(draw(st.integers(1, 2)))]
        tables.append([t, how, respelled(draw, t), cols, [list(r) for r in rows]])
    return {"spec": spec, "bias": [[t, f, v] for (t, f), v in bias.items()], "tables": tables, "freeze": draw(st.booleans()), "other": draw(st.booleans())}


def check_foreign(case, ctx):
    from ticdat.utils import TicDatError
    usable()
    spec, bias = case["spec"], {(t, f): v for t, f, v in case["bias"]}
    tdf = gen.tdf_of(spec)
    path = dbs(ctx.tmpdir())
    access.new_file(path)
    con = access.Connection(path)
    if case["other"]:
        con.execute("create table [something else] ([k] text)")
    want, dups, bad, dup_bad = {t: [] for t in spec["tables"]}, {}, [], []
    for t, how, name, cols, rows in case["tables"]:
        pks, dfs = spec["tables"][t]
        if how == "missing":
            continue
        for nm in [name] + ([t if name != t and " " in name else t.replace("_", " ")] if how == "twice" else []):
            con.execute("create table [%s] (%s)" % (nm, ", ".join("[%s] %s" % (c[1], c[2]) for c in cols)))
        for r in rows:
            by = dict(zip(pks + dfs, r))
            vals = ["zzz" if f is None else stored(spec, bias, t, f, by[f]) for f, _, _ in cols]
            con.execute("insert into [%s] (%s) values (%s)" % (name, ", ".join("[%s]" % c[1] for c in cols), ", ".join("?" * len(cols))), vals)
        if how in ("twice", "no field"):
            bad.append((t, how))
            if how == "twice" or not set(pks) <= {c[0] for c in cols}:
                dup_bad.append(t)
        rows = [[unstored(spec, bias, t, f, stored(spec, bias, t, f, v)) for f, v in zip(pks + dfs, r)] for r in rows]
        if pks:
            keyed, n = {}, {}
            for r in rows:
                k = tuple(r[:len(pks)])
                keyed.setdefault(k, []).append(r)
            want[t] = list(keyed.values())
            raw = {}
            for r in case_rows(case, t):
                k = tuple(stored(spec, bias, t, f, v) for f, v in zip(pks, r))
                raw[k[0] if len(k) == 1 else k] = raw.get(k[0] if len(k) == 1 else k, 0) + 1
            d = {k: v for k, v in raw.items() if v > 1}
            if d:
                dups[t] = d
        else:
            want[t] = rows
    con.commit()
    con.close()
    try:
        got_dups = tdf.mdb.find_duplicates(path)
    except TicDatError as e:
        bad_keyed = [t for t, how in bad if spec["tables"][t][0]]
        require(bad_keyed, "find_duplicates refused a good file: %s", e)
    else:
        require(not [t for t in dup_bad if spec["tables"][t][0]], "find_duplicates accepted a file with a bad table: %s", bad)
        if not bad:
            require_eq(got_dups, dups, "duplicates")
    try:
        dat = tdf.mdb.create_tic_dat(path, freeze_it=case["freeze"])
    except TicDatError as e:
        require(bad, "a good file was refused: %s", e)
        require(any(t.lower() in str(e).lower() for t, _ in bad), "the message names none of the bad tables %s: %s", bad, e)
        ctx.nontrivial("refused: " + bad[0][1])
        return
    require(not bad, "a file with a bad table was accepted: %s", bad)
    with interpreting("the data read"):
        got = gen.td_content(spec, dat)
    for t, rows in want.items():
        n = len(spec["tables"][t][0])
        if n:
            require_eq(len(got[t]), len(rows), "number of rows of %s" % t)
            found = gen.keyed(spec, t, got[t])
            for group in rows:
                k = gen.norm_rows(group)[0][:n]
                require(k in found, "row %s of %s is not read", k, t)
                require(found[k] in [r[n:] for r in gen.norm_rows(group)], "row %s of %s: %s is none of %s", k, t, found[k], group)
        else:
            require_eq(rows_differ(rows, got[t]), None, "rows of %s" % t)
    if any(case_rows(case, t) for t in want if want[t]):
        ctx.nontrivial("read")
    if dups:
        ctx.label("duplicates")
    if any(" " in x[2] for x in case["tables"]):
        ctx.label("spaces in a table name")


def case_rows(case, t):
    return next(x[4] for x in case["tables"] if x[0] == t)


# ------------------------------------------------------------------------------------------- refusals
def refusals():
    return [[w, r] for w in ("read", "dups", "write", "schema") for r in ("not a database", "absent", "directory", "ending", "generic", "bad data", "field types", "table types")]


def check_refuse(case, ctx):
    from ticdat import TicDatFactory
    from ticdat.utils import TicDatError
    usable()
    what, why = case
    if why in ("bad data", "directory") and what != "write" or why in ("field types", "table types") and what != "schema" or why == "not a database" and what == "schema" or \
       why == "absent" and what in ("write", "schema"):
        return
    tdf = TicDatFactory(t=[["a"], ["b"]], u="*") if why == "generic" else TicDatFactory(t=[["a"], ["b"]])
    path = dbs(ctx.tmpdir(), "f.txt" if why == "ending" else "f.accdb")
    if why == "not a database":
        with open(path, "w") as f:
            f.write("certainly not a database " * 50)
    elif why == "directory":
        os.mkdir(path)
    elif why != "absent":
        access.new_file(path)
    dat = tdf.TicDat(t={"k": 3})
    if why == "bad data":
        dat = object()
    types = {"field types": {"t": {"b": "varchar"}}, "table types": {"nope": {"b": "text"}}}.get(why, {})
    call = {"read": lambda: tdf.mdb.create_tic_dat(path), "dups": lambda: tdf.mdb.find_duplicates(path),
            "write": lambda: tdf.mdb.write_file(dat, path), "schema": lambda: tdf.mdb.write_schema(path, **types)}[what]
    before = os.path.getsize(path) if os.path.exists(path) else None
    try:
        call()
    except TicDatError:
        pass
    else:
        fail("%s was not refused: %s" % (what, why))
    require_eq(os.path.getsize(path) if os.path.exists(path) else None, before, "size of the file after the refusal")
    ctx.nontrivial(why)


FACETS = [
    Facet("history", check_history, history, quick=1500, rule="some write succeeded or was refused"),
    Facet("foreign", check_foreign, foreign_file, quick=1500, rule="rows were read, or the file was refused for a bad table"),
    Facet("refuse", check_refuse, cases=refusals, rule="every kind of call refuses every kind of unusable file or argument with TicDatError"),
]
