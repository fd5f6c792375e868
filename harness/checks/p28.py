import contextlib, datetime, io, json, os, re, sys
from hypothesis import strategies as st
from . import p32 as access_files  # first: it installs the stand-in for the Access driver
from .. import access, gen, formats
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import orphans
from .p12 import outcome as pred_outcome
from .p25 import field as clean_field, same_rows
from .p26 import put, same

TECHNIQUE = ("property-based testing (Hypothesis): whole command lines run in a scratch directory over inputs built without ticdat's writers, with an instrumented solve; "
             "the calls, the files left behind, the solution read back and the error report (read raw) are compared with a model")
NOTE = ("Every input and output format (Access through the stand-in for its driver); error reports in JSON, CSV, SQLite and xlsx. Both factories, generic tables, default file names, short and long options, overwritten outputs. "
        "For TicDat inputs duplicates end the run, so the report's duplicates are judged for PanDat. The -f option needs a package that is not installed.")
INF = gen.INF
D = datetime.datetime
DT = [D(2020, 1, 1, 3, 4, 5), D(2020, 1, 2), D(1999, 12, 31)]
rule = lambda lo=-INF, hi=INF, null=False, strs=(), num=True, date=False, il=True, ih=True, integer=False: [num, il, ih, lo, hi, integer, list(strs) if strs != "*" else "*", null, date]
TD = ["json", "json dict", "csv", "db", "sql", "xls", "xlsx"]
PD = ["json", "json split", "csv", "db", "xlsx"]
EXT = {"json": ".json", "json dict": ".json", "json split": ".json", "csv": "", "db": ".db", "sql": ".sql", "xls": ".xls", "xlsx": ".xlsx"}


def dirty_field(draw, is_pk, fmt, dirty):
    k = draw(st.sampled_from(["range", "range", "list", "text", "int", "date", "null num", "null text", "null date"] if not is_pk else ["range", "list", "text", "int", "date"]))
    holds_null = fmt in ("json", "json dict", "db", "sql")
    r, good, bad = {"range": [rule(0, 10), [0, 1, 2.5, 10], [-1, 11]],
                    "list": [rule(num=False, strs=["a", "b", "hot dog"]), ["a", "b", "hot dog"], ["c", "zzz"]],
                    "text": [rule(num=False, strs="*"), ["a", "b", "c", "é"], []],
                    "int": [rule(-100, 100, integer=True), [0, 1, 2, 10], [0.5]],
                    "date": [rule(date=True), DT, []],
                    "null num": [rule(null=True), [0, 1, 2, None], []],
                    "null text": [rule(num=False, strs="*", null=True), ["a", "b", "c", None], []],
                    "null date": [rule(date=True, null=True), DT + [None], []]}[k]
    if k == "null text" and fmt == "xls":
        r, good = rule(num=False, strs="*"), ["a", "b", "c"]
    if holds_null and not is_pk and not k.startswith("null") and k != "date":
        bad = bad + [None]
    return [r, good + (bad if dirty else [])]


@st.composite
def _case(draw):
    pan = draw(st.booleans())
    fmt = draw(st.sampled_from(PD if pan else TD))
    dirty = draw(st.booleans())
    err = draw(st.sampled_from([None, None, "json", "csv", "db", "xlsx"]))
    tabs = draw(gen.tables(1, 3, max_pk=3, max_df=3, fpool=gen.FIELD_NAMES[:10]))
    spec = {"tables": tabs, "types": {}, "fks": draw(gen.fk_list(tabs, n_max=3, acyclic=draw(st.booleans()), allow_self=True)) if draw(st.integers(0, 2)) else []}
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            r, c = dirty_field(draw, f in pks, fmt, dirty)
            spec["types"].setdefault(t, {})[f] = r
            cells[t, f] = st.sampled_from(c)
    dups = dirty and fmt != "sql" and draw(st.integers(0, 2 if pan else 5)) == 0
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5, unique_pk=not dups))
    for t, rows in data.items():
        if dups and rows and tabs[t][0] and draw(st.booleans()):
            rows.insert(draw(st.integers(0, len(rows))), list(draw(st.sampled_from(rows))))
    for t, rows in data.items():
        while rows and all(c is None for c in rows[-1]):
            rows.pop()
    if draw(st.integers(0, 3)) == 0:
        spec["params"] = {"mode": [rule(num=False, strs=["on", "off"]), "on"], "cap": [rule(0, 10), 5]}
        tabs["parameters"] = [["Name"], ["Value"]]
        names = draw(st.lists(st.sampled_from(["mode", "cap"] + ["nope"] * dirty), unique=True))
        data["parameters"] = [[n, draw(st.sampled_from({"mode": ["on", "off"] + ["zzz"] * dirty, "cap": [0, 7, 10] + [11, -1] * dirty, "nope": ["a"]}[n]))] for n in names]
    preds = []
    for _ in range(draw(st.integers(0, 3)) if err else 0):
        msg = draw(st.booleans())
        outs = [["ret", True]] * draw(st.integers(1, 3)) + [["ret", "bad é" if msg else False]] * (dirty and draw(st.integers(0, 2)))
        preds.append({"table": draw(st.sampled_from(sorted(spec["types"]))), "name": draw(st.sampled_from(["p", "q", 7])), "msg": msg, "outcomes": outs, "salt": draw(st.integers(0, 5)),
                      "maker": draw(st.sampled_from([None, None, "rows", "const", "none"]))})
    xls = draw(st.integers(0, 3)) == 0
    out = draw(st.sampled_from((["json", "csv", "db", "xlsx"] if pan else ["json", "csv", "db", "sql", "xlsx"]) + ["xls"] * 3 * (xls and not pan)))
    sflag = draw(st.sampled_from(["N/A", "N/A", 1e6, None]))
    stabs = draw(gen.tables(1, 2))
    sspec = {"tables": stabs, "fks": [], "types": {}, "inf": sflag}
    scells = {}
    for t, (pks, dfs) in stabs.items():
        for f in pks + dfs:
            r, c = clean_field(draw, f in pks, sflag, xls or out == "xls")
            if r:
                sspec["types"].setdefault(t, {})[f] = r
            scells[t, f] = st.sampled_from(c)
    sdata = []
    for _ in range(2):
        d = draw(gen.data_for(sspec, lambda t, f: scells[t, f], 0, 4))
        for t, rows in d.items():
            while rows and all(c is None or (sflag is None and c == INF) for c in rows[-1]):
                rows.pop()
            seen = {}
            for r in rows:
                seen.setdefault(tuple(r[:len(stabs[t][0])]) or len(seen), r)
            d[t] = list(seen.values())
        sdata.append(d)
    generic = (pan or fmt in ("csv", "db", "xls", "xlsx")) and draw(st.integers(0, 5)) == 0
    return {"pan": pan, "fmt": fmt, "err": err, "spec": spec, "data": data, "preds": preds, "out": out, "sspec": sspec, "sdata": sdata, "generic": generic,
            "gpred": draw(st.sampled_from([None, "bool", "message"])) if generic and err and pan else None,
            "shuffle": draw(st.booleans()), "extra": draw(st.booleans()),
            "ret": draw(st.sampled_from(["sln"] * 4 + ["pair", "list pair", "none", "false", "pair none"])),
            "trouble": draw(st.sampled_from([None] * 12 + ["missing", "option", "missing option value", "csv file", "json directory", "garbage", "help", "wrong tables"])),
            "mid": draw(st.sampled_from(["", "", ".json", ".xlsx ", ".db"])),
            "style": draw(st.sampled_from(["short", "long", "equals", "prefix", "glued"])), "default in": draw(st.booleans()), "default out": draw(st.booleans()),
            "existing": draw(st.booleans()), "space": draw(st.booleans()), "order": draw(st.booleans())}


def option(style, name, value):
    return {"short": ["-" + name[0], value], "long": ["--" + name, value], "equals": ["--%s=%s" % (name, value)], "prefix": ["--" + name[:3], value], "glued": ["-" + name[0] + value]}[style]


def build(case, log):
    spec = case["spec"]
    full = dict(spec, tables=dict(spec["tables"]))
    if case["generic"]:
        full["tables"]["anything"] = "*"
    f = (gen.pdf_of if case["pan"] else gen.tdf_of)(full)
    for p in case["preds"]:
        def predicate(row, p=p, **kw):
            from .p10 import native
            return pred_outcome(p, {k: native(v) for k, v in row.items()}, kw)[1]
        maker = None
        if p["maker"]:
            def maker(dat, p=p):
                log.append(hasattr(getattr(dat, p["table"]), "columns"))
                return {"rows": lambda: {"n": len(getattr(dat, p["table"]))}, "const": lambda: {"k": 3}, "none": lambda: None}[p["maker"]]()
        f.add_data_row_predicate(p["table"], predicate, p["name"], maker, "Error Message" if p["msg"] else "Boolean")
    if case.get("gpred"):
        f.add_data_row_predicate("anything", lambda row: next(iter(row.values())) < 2 or (False if case["gpred"] == "bool" else "over"), "small u", None, "Boolean" if case["gpred"] == "bool" else "Error Message")
    return f


def expected_report(case):
    """{report table: list of rows, each (names, id cells)}"""
    spec, data = case["spec"], case["data"]
    ids = lambda t, r: list(r)[:len(spec["tables"][t][0])] if spec["tables"][t][0] else list(r)
    out = {"duplicate_rows": [], "data_type_failures": [], "foreign_key_failures": [], "data_row_failures": []}
    for t, (pks, dfs) in spec["tables"].items():
        seen = []
        for r in data[t]:
            k = [gen.norm(x) for x in r[:len(pks)]]
            if pks and k in seen:
                out["duplicate_rows"].append([[t], ids(t, r)])
            seen.append(k)
        for j, f in enumerate(pks + dfs if t in spec["types"] else []):
            for r in data[t]:
                if not gen.rule_ok(spec["types"][t][f], r[j]):
                    out["data_type_failures"].append([[t, f], ids(t, r)])
    for fk in spec["fks"]:
        for i in orphans(spec, data, fk):
            out["foreign_key_failures"].append([[fk[0], fk[1], sorted(map(list, fk[2]))], ids(fk[0], data[fk[0]][i])])
    for n, v in data.get("parameters", []):
        if n not in spec["params"] or not gen.rule_ok(spec["params"][n][0], v):
            out["data_row_failures"].append([["parameters", "Good Name/Value Check", None], [n]])
    if case.get("gpred"):
        out["data_row_failures"].append([["anything", "small u", "over" if case["gpred"] == "message" else None], []])
    last = {}
    for p in case["preds"]:
        last[p["table"], p["name"]] = p
    for (t, name), p in last.items():
        if p["maker"] == "none":
            out["data_row_failures"].append([[t, str(name), "*"], []])
            continue
        kw = {None: {}, "rows": {"n": len(data[t])}, "const": {"k": 3}}[p["maker"]]
        for r in data[t]:
            v = pred_outcome(p, gen.row_dict(spec, t, r), kw)[1]
            if v is not True:
                out["data_row_failures"].append([[t, str(name), v if p["msg"] else None], ids(t, r)])
    return out


def canon(c):
    if c is None or c == "" or c != c:
        return ("null",)
    if isinstance(c, D):
        return ("date", c.replace(microsecond=round(c.microsecond, -4) % 1000000, tzinfo=None).isoformat()[:19])
    if isinstance(c, str):
        if re.fullmatch(r"\d{4}-\d\d-\d\d([ T]\d\d:\d\d:\d\d(\.\d+)?)?", c):
            return canon(D.fromisoformat(c))
        try:
            c = float(c)
        except ValueError:
            return ("text", c)
    if abs(c) > 1e8:
        return canon(D(1970, 1, 1) + datetime.timedelta(milliseconds=float(c)))
    return ("num", float(c))


NAMES = {"duplicate_rows": ["Table Name"], "data_type_failures": ["Table Name", "Field Name"], "foreign_key_failures": ["Native Table", "Foreign Table", "Mapping"],
         "data_row_failures": ["Table Name", "Predicate Name", "Error Message"]}


def read_report(path, fmt, width):
    fields = {t: v + ["Field %d" % (i + 1) for i in range(width)] for t, v in NAMES.items()}
    raw = formats.raw(path, fmt, fields)
    if set(raw) != set(NAMES):
        names = {t: t.replace("_", " ").title() for t in NAMES}
        raw = {t: v for t, v in zip(NAMES, (formats.raw(path, fmt, {names[t]: fields[t]}).get(names[t]) for t in NAMES))}
    require(all(v is not None for v in raw.values()), "the report lacks tables: %s", raw)
    out = {}
    for t, rows in raw.items():
        n, out[t] = len(NAMES[t]), []
        for r in rows:
            names = list(r[:n])
            ids = [canon(x) for x in r[n:]]
            if t == "foreign_key_failures":
                m = re.findall(r"\(?'([^']*)', '([^']*)'\)?", names[2].replace("native_field=", "").replace("foreign_field=", ""))
                names[2] = sorted(map(list, m))
            if t == "data_row_failures":
                names[1], names[2] = (str(int(names[1])) if isinstance(names[1], float) else str(names[1])), names[2] or None
            out[t].append([names, ids])
    return out


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def check(case, ctx):
    import ticdat
    spec, data, fmt, pan, trouble, err = (case[k] for k in ("spec", "data", "fmt", "pan", "trouble", "err"))
    log, seen = [], []
    f = build(case, log)
    sspec, sdata = case["sspec"], case["sdata"]
    sf = (gen.pdf_of if pan else gen.tdf_of)(sspec)
    make = gen.make_pd if pan else gen.make_td
    if trouble == "wrong tables" and fmt in ("json", "json dict"):  # rows without field names, or that may leave fields out
        trouble = None
    if not trouble and not pan and any(len({tuple(gen.norm(x) for x in r[:len(pks)]) for r in data[t]}) < len(data[t]) for t, (pks, _) in spec["tables"].items() if pks):
        trouble = "duplicates"
    root = ctx.tmpdir()
    inp = "input.xlsx" if fmt == "xlsx" and case["default in"] else "the in%s_" % case.get("mid", "") + EXT[fmt]
    outp = "output.xlsx" if case["out"] == "xlsx" and case["default out"] else "sub%s.dir" % case.get("mid", "") + EXT[case["out"]]
    errp = err and "report" + EXT[err]
    tables = {}
    for t, (pks, dfs) in spec["tables"].items():
        cols, rows = pks + dfs, [list(r) for r in data[t]]
        if case["shuffle"] and fmt != "json":
            cols, rows = cols[::-1], [r[::-1] for r in rows]
        if case["extra"] and fmt not in ("json", "json dict", "json split", "sql"):
            cols, rows = ["not mine"] + cols, [[i] + r for i, r in enumerate(rows)]
        if fmt not in ("xls", "xlsx", "csv"):
            rows = [[c.isoformat(" ") if isinstance(c, D) else c for c in r] for r in rows]
        elif fmt == "csv":
            rows = [[c.isoformat(" ") if isinstance(c, D) else c for c in r] for r in rows]
        tables[t] = [cols, rows]
    if case["generic"]:
        tables["anything"] = [["u", "v"], [[1, "x"], [2, "y"]]]
    p = os.path.join(root, inp)
    if trouble == "wrong tables":  # no field of the schema can be found
        tables = {t: [["zq%d" % i for i in range(len(c))], r or [[1] * len(c)]] for t, (c, r) in tables.items()}
    if trouble == "json directory":
        inp = "the in.json"
        os.mkdir(os.path.join(root, inp))
    elif trouble == "csv file":
        inp = "one.csv"
        with open(os.path.join(root, inp), "w") as h:
            h.write("a,b\n1,2\n")
    elif trouble == "garbage":
        inp = "the in" + (EXT[fmt] or ".json")
        with open(os.path.join(root, inp), "wb") as h:
            h.write(b"\x00\x01{{ not a data file")
    elif trouble != "missing" and fmt == "sql":  # without its schema
        quote = lambda c: "NULL" if c is None else "'%s'" % c.replace("'", "''") if isinstance(c, str) else repr(c)
        with open(p, "w", encoding="utf-8") as h:
            for t, (cols, rows) in tables.items():
                for r in rows:
                    h.write("INSERT INTO [%s] (%s) VALUES (%s);\n" % (t, ",".join("[%s]" % c for c in cols), ",".join(map(quote, r))))
    elif trouble != "missing":
        put(p, fmt, tables)
    if case["existing"] and not (case["space"] and case["out"] in ("csv", "db")):
        d = make(sf, sspec, sdata[1])
        (formats.write_pd if pan else formats.write_td)(sf, d, os.path.join(root, outp), case["out"])
    before = listing(root)
    ret = case["ret"]
    solution = make(sf, sspec, sdata[0])

    def solve(dat, **ignored):
        seen.append(dat)
        return {"sln": solution, "pair": ("a message", solution), "list pair": ["a message", solution], "none": None, "false": False, "pair none": ("no luck", None)}[ret]
    argv = ["engine.py"]
    opts = []
    if inp != "input.xlsx" or not case["default in"]:
        opts.append(option(case["style"], "input", inp))
    if outp != "output.xlsx" or not case["default out"]:
        opts.append(option(case["style"], "output", outp))
    if err:
        opts.append(option(case["style"], "errors", errp))
    if case["order"]:
        opts.reverse()
    if trouble == "option":
        opts.append(["--nope"])
    if trouble == "missing option value":
        opts.append(["-o"])
    if trouble == "help":
        opts.append(["-h"])
    argv += sum(opts, [])
    old, cwd, text = sys.argv, os.getcwd(), io.StringIO()
    done = None
    try:
        sys.argv = argv
        os.chdir(root)
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            ticdat.standard_main(f, sf, solve, case["space"])
        done = "returned"
    except (SystemExit, Exception) as e:
        if not trouble:
            raise
        done = "exit %r" % (e.code,) if isinstance(e, SystemExit) else "raised"
    finally:
        sys.argv = old
        os.chdir(cwd)
    after = listing(root)
    if trouble:
        ctx.nontrivial(trouble)
        if trouble == "option" or trouble == "missing option value":
            require_eq(done, "exit 2", "outcome of %s" % argv)
        if trouble == "help":
            require(done in ("exit None", "exit 0"), "--help: %s", done)
        require_eq(len(seen), 0, "calls of solve (%s, %s)" % (trouble, argv))
        require(after == before, "files changed though the input is invalid (%s): %s", trouble, sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)))
        return
    ctx.label(fmt)
    want = expected_report(case) if err else None
    n_err = sum(map(len, want.values())) if err else 0
    if err:
        width = max([len(pks or dfs) for pks, dfs in spec["tables"].values()])
        require(os.path.exists(os.path.join(root, errp)), "no report %s was written", errp)
        with interpreting("error report"):
            got = read_report(os.path.join(root, errp), err, width)
            for t, w in want.items():
                w = [[names, [canon(c) for c in ids] + [("null",)] * (width - len(ids))] for names, ids in w]
                g = got[t]
                if t == "data_row_failures":
                    star = [(x[0][0], x[0][1]) for x in w if x[0][2] == "*"]
                    g = [[x[0][:2] + ["*"], x[1]] if tuple(x[0][:2]) in star else x for x in g]
                require_eq(sorted(g, key=repr), sorted(w, key=repr), "report table %s" % t)
        require(all(b == pan for b in log), "a predicate kwargs maker was given a %s", "TicDat" if pan else "PanDat")
    wrote = lambda path: {k for k in set(after) | set(before) if k == path or k.startswith(path + os.sep)}
    changed = {k for k in set(after) | set(before) if after.get(k) != before.get(k)}
    allowed = wrote(errp) if err else set()
    require_eq(len(seen), 0 if n_err else 1, "calls of solve (%d integrity errors)" % n_err)
    if n_err:
        ctx.nontrivial("integrity errors")
    if seen:
        with interpreting("data given to solve"):
            got = gen.pd_content(spec, seen[0]) if pan else gen.td_content(spec, seen[0])
            for t in data:
                same_rows(got[t], data[t], "table %s given to solve" % t, 1e-9)
        if any(data.values()):
            ctx.nontrivial("solved")
    if seen and "sln" in ret or seen and ret in ("pair", "list pair"):
        allowed |= wrote(outp)
        path = os.path.join(root, outp)
        require(os.path.isdir(path) if case["out"] == "csv" else os.path.isfile(path), "%s is not written", outp)
        got = sf.sql.create_tic_dat_from_sql(path) if case["out"] == "sql" else (formats.read_pd if pan else formats.read_td)(sf, path, case["out"])
        with interpreting("solution read back"):
            got = gen.pd_content(sspec, got) if pan else gen.td_content(sspec, got)
            for t in sdata[0]:
                same_rows(got[t], sdata[0][t], "table %s of the solution read back" % t, 1e-9)
    require(changed <= allowed, "changed files that were not asked for: %s", sorted(changed - allowed))
    require("a message" in text.getvalue() or not (seen and ret in ("pair", "list pair")), "the message is not printed")


# ------------------------------------------------------------------------------------------- Foresta (with a stand-in)
class Server:
    """records what the entry point asks of the Foresta server"""
    def __init__(self, busy, solution):
        self.busy, self.solution, self.log = busy, solution, []

    def AppConnect(self, server, token, app_id):
        self.log.append(["connect", server, token, app_id])
        outer = self

        class Con:
            app_name = "the app"

            def current_scenarios(self):
                return {77: "scenario name"}

            def launch_solve(self, i):
                outer.log.append(["launch", i])

            def is_solving_underway(self, i):
                outer.log.append(["poll", i])
                outer.busy -= 1
                return outer.busy >= 0
        return Con()

    def TicDatConnector(self, con, engine):
        outer = self
        self.engine = engine

        class Connector:
            def upload_input_dat(self, dat, **kw):
                outer.uploaded = dat
                outer.log.append(["upload", kw])
                return 77

            def download_solution(self, scenario):
                outer.log.append(["download", scenario])
                return outer.solution
        return Connector()


@st.composite
def _foresta(draw):
    case = draw(_case().filter(lambda c: not c["trouble"]))
    case.update({"mode": draw(st.sampled_from([None, "upload and solve", "upload only", "download from scenario", "mystery"])), "scenario": draw(st.sampled_from([None, "s 1"])), "preds": [],
                 "lacks": draw(st.sampled_from([None] * 6 + ["token", "server", "app_id", "file", "module"])), "busy": draw(st.sampled_from([0, 0, 0, 1, 2])), "both": draw(st.integers(0, 5)) == 0})
    return case


def check_foresta(case, ctx):
    import ticdat, ticdat.utils
    spec, data, fmt, pan = (case[k] for k in ("spec", "data", "fmt", "pan"))
    if fmt not in ("json", "db", "xlsx") or any(len({tuple(gen.norm(x) for x in r[:len(pks)]) for r in data[t]}) < len(data[t]) for t, (pks, _) in spec["tables"].items() if pks):
        return
    f = build(case, [])
    sspec, sdata = case["sspec"], case["sdata"]
    sf = (gen.pdf_of if pan else gen.tdf_of)(sspec)
    solution = (gen.make_pd if pan else gen.make_td)(sf, sspec, sdata[0])
    root = ctx.tmpdir()
    tables = {t: [pks + dfs, [[c.isoformat(" ") if isinstance(c, D) and fmt != "xlsx" else c for c in r] for r in data[t]]] for t, (pks, dfs) in spec["tables"].items()}
    if case["generic"]:
        tables["anything"] = [["u", "v"], [[1, "x"], [2, "y"]]]
    put(os.path.join(root, "in" + EXT[fmt]), fmt, tables)
    conf = {"server": "http://x", "token": "T", "app_id": 12}
    conf.pop(case["lacks"], None)
    for k in ("mode", "scenario"):
        if case[k]:
            conf[k] = case[k]
    if case["lacks"] != "file":
        with open(os.path.join(root, "conf.json"), "w") as h:
            json.dump(conf, h)
    outp = "out" + EXT[case["out"]]
    argv = ["engine.py", "-i", "in" + EXT[fmt], "-o", outp] + option(case["style"], "foresta", "conf.json") + (["-e", "errors.json"] if case["both"] else [])
    server, solved, sleeps = Server(case["busy"], solution), [], []
    before = listing(root)
    old, cwd, was, nap = sys.argv, os.getcwd(), ticdat.utils.dspotconnect, ticdat.utils.time
    done = "returned"

    class Clock:
        sleep = staticmethod(sleeps.append)
    try:
        sys.argv = argv
        os.chdir(root)
        ticdat.utils.dspotconnect = None if case["lacks"] == "module" else server
        ticdat.utils.time = Clock
        with contextlib.redirect_stdout(io.StringIO()):
            ticdat.standard_main(f, sf, lambda dat: solved.append(dat), case["space"])
    except Exception as e:
        done = "raised"
        if not isinstance(e, ticdat.utils.TicDatError):
            raise
    finally:
        sys.argv, ticdat.utils.dspotconnect, ticdat.utils.time = old, was, nap
        os.chdir(cwd)
    after = listing(root)
    changed = {k for k in set(after) | set(before) if after.get(k) != before.get(k)}
    mode = case["mode"] or "upload and solve"
    require_eq(solved, [], "local solves of a run on Foresta")
    if case["lacks"] or mode == "mystery" or case["both"] or (mode == "download from scenario" and not case["scenario"]):
        require(done == "raised" or case["lacks"] == "file" or case["both"], "an invalid Foresta configuration (%s, %s) is accepted", case["lacks"], conf)
        require_eq([sorted(changed), [x for x in server.log if x[0] in ("upload", "launch", "download")]], [[], []], "effects of an invalid command line %s with %s" % (argv, conf))
        ctx.nontrivial("refused")
        return
    require_eq(done, "returned", "outcome of %s with %s" % (argv, conf))
    ctx.nontrivial(mode)
    want = [["connect", "http://x", "T", 12]]
    if mode != "download from scenario":
        want.append(["upload", {"scenario_name": case["scenario"]} if case["scenario"] else {}])
        with interpreting("data uploaded"):
            got = gen.pd_content(spec, server.uploaded) if pan else gen.td_content(spec, server.uploaded)
            for t in data:
                same_rows(got[t], data[t], "table %s uploaded" % t, 1e-9)
        if mode == "upload and solve":
            want += [["launch", 77]] + [["poll", 77]] * (case["busy"] + 1) + [["download", 77]]
            require(len(sleeps) >= case["busy"], "polling without a pause")
    else:
        want.append(["download", case["scenario"]])
    require_eq(server.log, want, "requests to Foresta (%s)" % conf)
    require(server.engine.input_schema is f and server.engine.solution_schema is sf, "the engine of the connector")
    if mode == "upload only":
        require_eq(sorted(changed), [], "files written by an upload")
        return
    require({k.split(os.sep)[0] for k in changed} == {outp} or case["out"] == "csv" and not changed, "files written: %s", sorted(changed))
    got = sf.sql.create_tic_dat_from_sql(os.path.join(root, outp)) if case["out"] == "sql" else (formats.read_pd if pan else formats.read_td)(sf, os.path.join(root, outp), case["out"])
    with interpreting("solution read back"):
        got = gen.pd_content(sspec, got) if pan else gen.td_content(sspec, got)
        for t in sdata[0]:
            same_rows(got[t], sdata[0][t], "table %s of the solution read back" % t, 1e-9)


# ------------------------------------------------------------------------------------------- Access (with a stand-in)
@st.composite
def _access(draw):
    spec, kinds, cells, bias = draw(access_files.schema())
    sspec, skinds, scells, sbias = draw(access_files.schema(default=True))
    data = access_files.rows_of(draw, spec, cells)
    twice = [t for t, (pks, _) in spec["tables"].items() if pks and t != "parameters" and data[t]]
    return {"spec": spec, "bias": [[t, f, v] for (t, f), v in bias.items()], "kinds": [[t, f, v] for (t, f), v in kinds.items()], "data": data,
            "dup": draw(st.sampled_from(twice)) if twice and draw(st.integers(0, 3)) == 0 else None,
            "sspec": sspec, "sbias": [[t, f, v] for (t, f), v in sbias.items()], "sdata": [access_files.rows_of(draw, sspec, scells) for _ in range(2)],
            "in": draw(st.sampled_from([".mdb", ".accdb"])), "out": draw(st.sampled_from([".mdb", ".accdb"])), "existing": draw(st.booleans()), "sln": draw(st.integers(0, 4)) > 0}


def check_access(case, ctx):
    import ticdat
    access_files.usable()
    triples = lambda k: {(t, f): v for t, f, v in case[k]}
    spec, sspec, bias, sbias, kinds = case["spec"], case["sspec"], triples("bias"), triples("sbias"), triples("kinds")
    f, sf = gen.tdf_of(spec), gen.tdf_of(sspec)
    store = lambda sp, b, t, rows: [[access_files.stored(sp, b, t, f, v) for f, v in zip(sum(sp["tables"][t], []), r)] for r in rows]
    root = ctx.tmpdir()
    inp, outp = "in" + case["in"], "out" + case["out"]
    access.new_file(os.path.join(root, inp))
    con = access.Connection(os.path.join(root, inp))
    for t, (pks, dfs) in spec["tables"].items():
        con.execute("create table [%s] (%s)" % (t.replace("_", " "), ", ".join("[%s] %s" % (c.upper(), kinds[t, c]) for c in pks + dfs)))
        rows = store(spec, bias, t, case["data"][t])
        for r in rows + rows[:1] * (t == case["dup"]):
            con.execute("insert into [%s] values (%s)" % (t.replace("_", " "), ", ".join("?" * len(r))), r)
    con.commit()
    con.close()
    seen, solution = [], access_files.ticdat_of(sf, sspec, case["sdata"][0])
    existing = case["existing"] or case["out"] == ".mdb"
    with access_files.blank_database(root):
        if existing:
            access.new_file(os.path.join(root, outp))
            sf.mdb.write_schema(os.path.join(root, outp))
            sf.mdb.write_file(access_files.ticdat_of(sf, sspec, case["sdata"][1]), os.path.join(root, outp))
        before = listing(root)
        old, cwd, done = sys.argv, os.getcwd(), "returned"
        try:
            sys.argv = ["engine.py", "-i", inp, "-o", outp]
            os.chdir(root)
            with contextlib.redirect_stdout(io.StringIO()):
                ticdat.standard_main(f, sf, lambda dat: seen.append(gen.td_content(spec, dat)) or (solution if case["sln"] else None))
        except (ticdat.utils.TicDatError, AssertionError):
            if not case["dup"]:
                raise
            done = "raised"
        finally:
            sys.argv = old
            os.chdir(cwd)
    after = listing(root)
    changed = {k for k in set(after) | set(before) if after.get(k) != before.get(k)}
    if case["dup"]:
        require_eq([done, len(seen), sorted(changed)], ["raised", 0, []], "outcome, solves and changed files for duplicates in %s" % case["dup"])
        ctx.nontrivial("duplicates")
        return
    require_eq(len(seen), 1, "calls of solve")
    access_files.compare(spec, {t: [[access_files.unstored(spec, bias, t, f, v) for f, v in zip(sum(spec["tables"][t], []), r)] for r in store(spec, bias, t, rows)] for t, rows in case["data"].items()},
                         seen[0], "data given to solve")
    require(changed <= ({outp} if case["sln"] else set()), "changed files that were not asked for: %s", sorted(changed))
    if case["sln"]:
        ctx.nontrivial("written over" if existing else "new file")
        require(outp in after, "%s is not written", outp)
        with interpreting("solution file"):
            access_files.compare(sspec, {t: store(sspec, sbias, t, rows) for t, rows in case["sdata"][0].items()}, access_files.held(os.path.join(root, outp), sspec), "solution")


FACETS = [Facet("Access files", check_access, _access, quick=300, rule="a solution was written, or duplicates ended the run"),
          Facet("foresta", check_foresta, _foresta, quick=500, rule="the run reached the stand-in for Foresta or was refused"),
          Facet("command lines", check, _case, quick=1200, rule="a solve saw rows, the report has rows, or the invalid command line was refused")]
