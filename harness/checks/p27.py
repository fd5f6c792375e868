import os
from hypothesis import strategies as st
from .. import gen, formats
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = ("model-based property testing (Hypothesis): each keyless table built as a generator table and as an ordinary one from the same rows (lists, functions, CSV, SQLite, .xls and .xlsx files); "
             "random interleavings of several iterations, some abandoned, compared with the list; copies, writes to every format and every diagnostic compared with the ordinary twin")
NOTE = ("Between one and three generator tables beside keyed and keyless ordinary ones, with foreign keys, types, defaults and predicates among them. A diagnostic on a factory with generator tables may refuse with TicDatError or leave "
        "them out; what it reports of ordinary tables must be what the twin reports. JSON and .sql reading refuse generator tables (checked). Excel is read with treat_inf_as_infinity off, as documented.")
INF = gen.INF
rule = lambda lo=-INF, hi=INF, null=False, strs=(), num=True: [num, True, True, lo, hi, False, list(strs) if strs != "*" else "*", null, False]


@st.composite
def _schema(draw, what):
    fmt = draw(st.sampled_from(["csv", "db", "xls", "xlsx"])) if what == "files" else None
    tabs = {}
    for t in draw(gen.ident_tables(1, 4)):
        fs = draw(gen.fields(1, 4))
        n = 0 if not tabs or draw(st.booleans()) else draw(st.integers(1, len(fs)))
        tabs[t] = [fs[:n], fs[n:]]
    keyless = [t for t, v in tabs.items() if not v[0]]
    gens = [t for t in keyless if draw(st.integers(0, 3))] or keyless[:1]
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "inf": "N/A", "munge": True, "dups": "ignore"}
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            k = draw(st.sampled_from(["int", "num", "text", "textnull"] if f in dfs else ["int", "text"]))
            spec["types"].setdefault(t, {})[f] = {"int": rule(-50, 50 if draw(st.booleans()) else 3), "num": rule(null=True), "text": rule(num=False, strs="*"), "textnull": rule(num=False, strs="*", null=True)}[k]
            cells[t, f] = st.sampled_from({"int": [0, 1, 2, 3, 7], "num": [0, 1, -2.5, 1e5, None, 3], "text": ["a", "b", "c d", "é", "12"], "textnull": ["a", "x,y", None, "q\"q"]}[k])
            if f in dfs and draw(st.integers(0, 3)) == 0:
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([3, "d", 2.5]))
    if what == "memory" and draw(st.booleans()):
        spec["fks"] = draw(gen.fk_list(tabs, 3, acyclic=draw(st.booleans())))
        for nt, ft, m in spec["fks"]:
            for nf, ff in m:
                cells[nt, nf] = cells[ft, ff]
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 6))
    if fmt in ("xls", "xlsx"):
        for t, rows in data.items():
            while rows and all(c is None for c in rows[-1]):
                rows.pop()
    return {"spec": spec, "gens": gens, "data": data, "fmt": fmt}


@st.composite
def _steps(draw):
    out = []
    for _ in range(draw(st.integers(1, 8))):
        out.append(draw(st.sampled_from([["all"], ["open"], ["open"], ["next", 0, 1], ["next", 0, 2], ["next", 1, 1], ["next", 1, 3], ["close", 0], ["spoil"], ["next", 2, 1]])))
    return out


def interleave(table, want, steps, what, rows_of):
    """drive several iterations of one generator table at once"""
    import itertools
    live = []
    for s in steps:
        with interpreting("%s after %s" % (what, steps)):
            if s[0] == "all":
                require_eq(gen.norm_rows(rows_of(table())), want, "%s: a full iteration" % what)
            elif s[0] == "spoil":
                for r in table():
                    for k in list(r):
                        r[k] = "spoiled"
            elif s[0] == "open":
                live.append([iter(table()), 0])
            elif s[0] == "close" and live:
                live.pop(0)
            elif s[0] == "next" and s[1] < len(live):
                it = live[s[1]]
                got = gen.norm_rows(rows_of(itertools.islice(it[0], s[2])))
                require_eq(got, want[it[1]:it[1] + s[2]], "%s: rows %d.. of one of %d open iterations" % (what, it[1], len(live)))
                it[1] += len(got)
    for it, at in live:
        require_eq(gen.norm_rows(rows_of(it)), want[at:], "%s: the rest of an open iteration" % what)


def twins(case):
    spec = case["spec"]
    return gen.tdf_of({**spec, "gens": case["gens"]}), gen.tdf_of(spec)


def rows_fn(spec, t):
    fs = spec["tables"][t][1]

    def rows_of(it):
        out = []
        for r in it:
            require(set(r) == set(fs), "a row of %s has the fields %s", t, list(r))
            out.append([r[f] for f in fs])
        return out
    return rows_of


@st.composite
def _memory(draw):
    case = draw(_schema("memory"))
    n = lambda t: len(case["spec"]["tables"][t][1])
    case["how"] = {t: draw(st.sampled_from(["list", "tuple", "function of lists", "function of dicts", "dicts", "some fields", "twin", "iterating twice"] + ["scalars"] * (n(t) == 1))) for t in case["gens"]}
    case["steps"] = draw(_steps())
    case["copies"] = draw(st.sampled_from([[], ["copy"], ["copy", "copy"], ["freeze"], ["copy", "freeze"]]))
    return case


def source(spec, t, rows, how, twin):
    fs = spec["tables"][t][1]
    dicts = [dict(zip(fs, r)) for r in rows]
    if how == "list":
        return [list(r) for r in rows]
    if how == "tuple":
        return tuple(tuple(r) for r in rows)
    if how == "function of lists":
        return lambda: (list(r) for r in rows)
    if how == "function of dicts":
        return lambda: iter([dict(d) for d in dicts])
    if how == "iterating twice":
        return lambda: [list(r) for r in rows]
    if how == "dicts":
        return [dict(d) for d in dicts]
    if how == "some fields":
        return [{f: v for f, v in d.items() if i % 2 or f == fs[0]} for i, d in enumerate(dicts)]
    if how == "scalars":
        return [r[0] for r in rows]
    return getattr(twin, t)


def outcome(call):
    from ticdat.utils import TicDatError
    try:
        return ["ok", call()]
    except TicDatError:
        return ["refused"]


def key_name(k):
    return [getattr(k, a, None) for a in k._fields] if hasattr(k, "_fields") else list(k)


def check_memory(case, ctx):
    spec, gens, data = case["spec"], case["gens"], case["data"]
    g, o = twins(case)
    twin = gen.make_td(o, spec, data)
    src = {t: source(spec, t, data[t], case["how"][t], twin) for t in gens}
    plain = {t: gen.td_table(spec, t, data[t]) for t in data if t not in gens}
    dat = g.TicDat(**plain, **src)
    ord_src = {t: (list(v()) if callable(v) else v) for t, v in src.items()}
    odat = o.TicDat(**{t: gen.td_table(spec, t, data[t]) for t in plain}, **ord_src)
    rows_of = {t: rows_fn(spec, t) for t in gens}
    want = {t: gen.norm_rows(rows_of[t](getattr(odat, t))) for t in gens}
    for t in gens:
        require(len(want[t]) == len(data[t]), "ordinary table %s lost rows", t)
        if data[t]:
            ctx.nontrivial(case["how"][t])
        require(callable(getattr(dat, t)), "%s is not a generator function", t)
        interleave(getattr(dat, t), want[t], case["steps"], "%s from %s" % (t, case["how"][t]), rows_of[t])
    for what in case["copies"]:
        old = dat
        dat = g.copy_tic_dat(dat, freeze_it=draw_freeze(case)) if what == "copy" else g.freeze_me(dat)
        for t in gens:
            require_eq(gen.norm_rows(rows_of[t](getattr(dat, t)())), want[t], "%s after %s" % (t, what))
            require_eq(gen.norm_rows(rows_of[t](getattr(old, t)())), want[t], "%s of the original after %s" % (t, what))
            interleave(getattr(dat, t), want[t], [s for s in case["steps"] if s[0] != "spoil" or "freeze" not in case["copies"]], "%s after %s" % (t, what), rows_of[t])
        with interpreting("a copy"):
            require_eq(gen.diff_content({t: gen.td_rows(spec, dat, t) for t in plain}, {t: data[t] for t in plain}), None, "ordinary tables after %s" % what)
    require(g.good_tic_dat_object(dat), "not a good TicDat object")
    # diagnostics
    ord_only = lambda d: {tuple(map(repr, key_name(k))): (k, v) for k, v in d.items()}
    for name, call in (("find_data_type_failures", lambda f, d: f.find_data_type_failures(d)), ("find_foreign_key_failures", lambda f, d: f.find_foreign_key_failures(d)),
                       ("find_foreign_key_failures verbose", lambda f, d: f.find_foreign_key_failures(d, verbosity="Low")), ("find_data_row_failures", lambda f, d: f.find_data_row_failures(d))):
        a, b = outcome(lambda: call(g, dat)), outcome(lambda: call(o, odat))
        if a[0] == "refused":
            ctx.label(name + " refused")
            continue
        with interpreting(name):
            require(b[0] == "ok", "%s: the ordinary twin refuses", name)
            mine, his = a[1], b[1]
            touches = lambda k: any(x in gens for x in (list(k)[:2] if "foreign" in name else [k[0]]))
            for k, v in his.items():
                if not touches(k):
                    require(k in mine, "%s: %s is not reported beside generator tables, only %s", name, k, list(mine))
                    require_eq(repr(mine[k]), repr(v), "%s: %s" % (name, k))
                    ctx.label(name)
            for k, v in mine.items():
                require(k in his, "%s: %s reported, the ordinary twin has only %s", name, k, list(his))
    for name, call in (("replace_data_type_failures", lambda f, d: f.replace_data_type_failures(f.copy_tic_dat(d))), ("remove_foreign_key_failures", lambda f, d: f.remove_foreign_key_failures(f.copy_tic_dat(d))),
                       ("obfusimplify", lambda f, d: f.obfusimplify(d)[0]), ("as_dict", lambda f, d: f.as_dict(d)), ("copy_to_pandas", lambda f, d: f.copy_to_pandas(d, drop_pk_columns=False))):
        a = outcome(lambda: call(g, dat))
        ctx.label("%s %s" % (name, a[0]))
        if a[0] == "ok" and name.startswith("re"):
            b = outcome(lambda: call(o, odat))
            if b[0] == "refused":  # for the sake of a table that the other leaves out
                continue
            with interpreting(name):
                for t in plain:
                    if name.startswith("replace") or not connected(spec, t, gens):
                        require_eq(gen.diff_content({t: gen.td_rows(spec, a[1], t)}, {t: gen.td_rows(spec, b[1], t)}), None, "%s beside generator tables" % name)
                for t in gens:
                    require(callable(getattr(a[1], t)), "%s: %s is no longer a generator", name, t)
                    got = gen.norm_rows(rows_of[t](getattr(a[1], t)()))
                    require(got in (want[t], gen.norm_rows(rows_of[t](getattr(b[1], t)))), "%s: rows of %s %s", name, t, got)
                    if got != want[t]:
                        ctx.label("%s changed generators" % name)
    for name, call in (("json", lambda: g.json.write_file(dat, "")), ("json read", lambda: g.json.create_tic_dat("{}"))):
        require_eq(outcome(call)[0], "refused", name)


def connected(spec, t, gens):
    """could rows of t be removed because of a generator table?"""
    seen, todo = {t}, [t]
    while todo:
        x = todo.pop()
        for nt, ft, _ in spec["fks"]:
            if nt == x and ft not in seen:
                seen.add(ft)
                todo.append(ft)
    return any(x in gens for x in seen)


def draw_freeze(case):
    return len(case["steps"]) % 2 == 0 and case["copies"][-1:] == ["copy"]


@st.composite
def _files(draw):
    case = draw(_schema("files"))
    case["steps"] = draw(_steps())
    case["to"] = draw(st.sampled_from(["csv", "db", "sql", "xls", "xlsx"]))
    case["absent"] = draw(st.integers(0, 6)) == 6
    case["onto itself"] = draw(st.integers(0, 3)) == 3
    return case


def check_files(case, ctx):
    spec, gens, data, fmt = case["spec"], case["gens"], case["data"], case["fmt"]
    g, o = twins(case)
    d = ctx.tmpdir()
    path = formats.target(d, fmt, "in")
    odat = gen.make_td(o, spec, data)
    if case["absent"]:  # the file lacks the first generator table
        left = {**spec, "tables": {t: v for t, v in spec["tables"].items() if t != gens[0]}, "types": {t: v for t, v in spec["types"].items() if t != gens[0]},
                "defaults": {t: v for t, v in spec["defaults"].items() if t != gens[0]}, "fks": []}
        if not left["tables"]:
            return
        w = gen.tdf_of(left)
        formats.write_td(w, gen.make_td(w, left, {t: r for t, r in data.items() if t != gens[0]}), path, fmt)
        data = {**data, gens[0]: []}
    else:
        formats.write_td(o, odat, path, fmt)
    kw = {"treat_inf_as_infinity": False} if fmt in ("xls", "xlsx") else {}
    odat = formats.read_td(o, path, fmt, **kw)
    require_eq(gen.diff_content({t: gen.td_rows(spec, odat, t) for t in data}, data) if fmt not in ("csv", "xls") else None, None, "the ordinary twin")
    dat = formats.read_td(g, path, fmt, **kw)
    rows_of = {t: rows_fn(spec, t) for t in gens}
    want = {t: gen.norm_rows(rows_of[t](getattr(odat, t))) for t in gens}
    for t in gens:
        if want[t]:
            ctx.nontrivial(fmt)
        require(callable(getattr(dat, t)), "%s is not a generator function", t)
        interleave(getattr(dat, t), want[t], case["steps"], "%s from %s" % (t, fmt), rows_of[t])
    plain = [t for t in data if t not in gens]
    require_eq(gen.diff_content({t: gen.td_rows(spec, dat, t) for t in plain}, {t: gen.td_rows(spec, odat, t) for t in plain}), None, "ordinary tables")
    dup = outcome(lambda: {"csv": g.csv, "db": g.sql, "xls": g.xls, "xlsx": g.xls}[fmt].find_duplicates(path))
    require_eq(dup, ["ok", {}], "find_duplicates")
    own = case["onto itself"] and not case["absent"]
    to = fmt if own else case["to"]
    out = path if own else formats.target(d, to, "out")
    formats.write_td(g, dat, out, to, **({"allow_overwrite": True} if own else {}))
    if own:
        ctx.label("onto itself")
    back = formats.read_td(o, out, to)
    for t in data:
        a, b = gen.norm_rows(gen.td_rows(spec, back, t)), gen.norm_rows(gen.td_rows(spec, odat, t))
        blank = lambda rows: [tuple(("null",) if c == ("str", "") else c for c in r) for r in rows]
        a, b = blank(a), blank(b)
        while to in ("xls", "xlsx") and b and all(c == ("null",) for c in b[-1]):
            b.pop()
        if t in gens:
            require_eq(a, b, "generator table %s written from %s to %s" % (t, fmt, to))
        else:
            require_eq(sorted(a, key=repr), sorted(b, key=repr), "table %s written from %s to %s" % (t, fmt, to))
    for t in gens:  # still streaming
        if not own:
            require_eq(gen.norm_rows(rows_of[t](getattr(dat, t)())), want[t], "%s after the write" % t)
    if not own:
        require_eq(outcome(lambda: formats.read_td(g, out, to))[0], "refused" if to == "sql" else "ok" if to in ("csv", "db") else "refused", "reading generator tables from %s with default arguments" % to)


FACETS = [Facet("memory", check_memory, _memory, quick=1500, rule="a generator table holds rows"),
          Facet("files", check_files, _files, quick=1200, rule="a generator table holds rows")]
