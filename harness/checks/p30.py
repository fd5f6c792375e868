import contextlib, datetime, io, math, os, re
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail

TECHNIQUE = "property-based testing (Hypothesis): each helper against its own simple definition (row by row application, a tokenizer, a plain table printer, naive formulas), stand-ins for the solvers' progress objects"
NOTE = ("faster_df_apply on every dtype and index, ampl_format with at most doubled braces around names, LogFile tables of any width, deep_freeze and deep_copy on nested containers, Progress with stand-ins for "
        "the gurobi, cplex and xpress objects, reserved keyword renaming. NaN is not compared by nearly_same.")
INF = gen.INF


# ------------------------------------------------------------------------------------------- faster_df_apply
CELLS = {"int": [0, 1, -3, 2 ** 40], "float": [0.5, 1.0, float("inf"), float("nan")], "text": ["a", "b", "", "é"], "bool": [True, False], "mixed": [1, "a", None, 2.5, (1, 2)],
         "date": [datetime.datetime(2020, 1, 1), datetime.datetime(2021, 2, 3, 4, 5, 6)], "category": ["u", "v"]}
INDEX = ["range", "shift", "dup", "text", "date", "multi", "mixed", "float"]


@st.composite
def _frame(draw):
    cols = draw(st.lists(st.sampled_from(["a", "b c", "class", "_x", "1", "é", "index", "Index", "_0", "count", 5]), max_size=5, unique=True))
    kinds = [draw(st.sampled_from(sorted(CELLS))) for _ in cols]
    wide = draw(st.integers(0, 40)) == 0
    rows = draw(st.lists(st.tuples(*[st.sampled_from(CELLS[k]) for k in kinds]), max_size=6))
    return {"cols": cols, "kinds": kinds, "rows": [list(r) for r in rows], "index": draw(st.sampled_from(INDEX)), "wide": wide, "wire": draw(st.one_of(st.none(), st.none(), st.integers(0, 6))),
            "func": draw(st.sampled_from(["repr", "len", "first", "dict", "none", "bool", "tuple"]))}


def frame(case):
    import pandas as pd
    df = pd.DataFrame({c: pd.Series([r[i] for r in case["rows"]], dtype={"mixed": object, "text": object, "category": "category", "bool": bool, "int": "int64", "float": float}.get(k, "datetime64[ns]"))
                       for i, (c, k) in enumerate(zip(case["cols"], case["kinds"]))}, index=range(len(case["rows"])))
    if case["wide"]:
        df = pd.concat([df, pd.DataFrame({"w%d" % i: range(len(df)) for i in range(300)}, index=df.index)], axis=1)
    n = len(df)
    k = case["index"]
    df.index = {"range": lambda: pd.RangeIndex(n), "shift": lambda: pd.Index([(7 * i) % 5 + 10 * i for i in range(n)][::-1], dtype="int64"), "dup": lambda: pd.Index([i // 2 for i in range(n)], dtype="int64"),
                "text": lambda: pd.Index(["r%d" % i for i in range(n)], dtype=object), "date": lambda: pd.DatetimeIndex([datetime.datetime(2020, 1, i + 1) for i in range(n)]),
                "multi": lambda: pd.MultiIndex.from_tuples([("x", i) for i in range(n)] or [], names=["p", "q"]) if n else pd.RangeIndex(0),
                "mixed": lambda: pd.Index([[1, "b", None, 2.5, "e", (1, 2)][i] for i in range(n)], dtype=object), "float": lambda: pd.Index([i / 2 for i in range(n)], dtype=float)}[k]()
    return df


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    return gen.norm(a) == gen.norm(b)


def check_apply(case, ctx):
    from ticdat.utils import faster_df_apply
    df = frame(case)
    cols = list(df.columns)
    f = {"repr": lambda row: repr([(c, gen.norm(v)) for c, v in row.items()]), "len": lambda row: len(row), "first": lambda row: next(iter(row.values())) if row else 0, "dict": lambda row: dict(row),
         "none": lambda row: None, "bool": lambda row: len(repr(row)) % 2 == 0, "tuple": lambda row: tuple(row.values())[:2]}[case["func"]]
    calls, checks = [], []

    def func(row):
        calls.append((0, dict(row)))
        return f(row)

    def other(row):
        calls.append((1, dict(row)))
        return ["other", len(row)]

    def wire(res):
        checks.append(res)
        return other if len(checks) - 1 == case["wire"] else [None, 0, False, ""][len(checks) % 4]
    rows = [dict(zip(cols, [df.iloc[i, j] for j in range(len(cols))])) for i in range(len(df))]
    before = df.copy(deep=True)
    got = faster_df_apply(df, func, *([wire] if case["wire"] is not None else []))
    cut = INF if case["wire"] is None else case["wire"] + 1
    require_eq([k for k, _ in calls], [0 if i < cut else 1 for i in range(len(df))], "which function was applied to each row (trip wire at %s)" % case["wire"])
    for i, ((_, row), w) in enumerate(zip(calls, rows)):
        require(same(row, w), "row %d given to the function: %s, expected %s", i, row, w)
    if case["wire"] is not None:
        require_eq(len(checks), min(len(df), cut), "calls of trip_wire_check")
    want = [f(r) if i < cut else ["other", len(r)] for i, r in enumerate(rows)]
    require(len(got) == len(want) and all(same(a, b) if not isinstance(b, list) else a == b for a, b in zip(list(got), want)), "results: %s, expected %s", list(got), want)
    require(len(got.index) == len(df.index) and all(same(a, b) for a, b in zip(got.index, df.index)), "index: %s, expected %s", list(got.index), list(df.index))
    require(df.equals(before) and list(df.columns) == list(before.columns), "the frame was changed")
    if len(df) > 1:
        ctx.nontrivial("trip wire" if case["wire"] is not None and cut < len(df) else "plain")


# ------------------------------------------------------------------------------------------- ampl_format
NAMES = {"x": 5, "LONG_NAME": "a{b}", "y1": "{{x}}", "_s": "", "é": 2.5, "pair": "%s \\ }"}


@st.composite
def _ampl(draw):
    text = st.text("ab;{}\n '[]_%$:!,.é0\\", max_size=6).map(lambda s: re.sub(r"\{\{+", "{", re.sub(r"\}\}+", "}", s)))
    parts = draw(st.lists(st.one_of(text.map(lambda s: ["text", s]), st.sampled_from(sorted(NAMES)).map(lambda n: ["name", n])), max_size=8))
    return {"parts": parts, "extra": draw(st.booleans()), "lack": draw(st.integers(0, 5)) == 0, "marker": draw(st.integers(0, 9)) == 0}


def check_ampl(case, ctx):
    from ticdat.utils import ampl_format, TicDatError
    src, want = "", ""
    used = []
    for k, v in case["parts"]:
        if k == "text":
            if src.endswith("{") and v.startswith("{") or src.endswith("}") and v.startswith("}") or src.endswith("{{"):
                v = " " + v
            src, want = src + v, want + v
        else:
            if src.endswith("{"):
                src, want = src + " ", want + " "
            src, want = src + "{{%s}}" % v, want + str(NAMES[v])
            used.append(v)
    kw = {k: v for k, v in NAMES.items() if case["extra"] or k in used}
    if case["marker"]:
        try:
            ampl_format(src + "_ticdat_ampl_format_[_", **kw)
        except TicDatError:
            return
        fail("the marker inside of the text is not refused")
    if used and case["lack"]:
        kw.pop(used[0])
        try:
            got = ampl_format(src, **kw)
        except KeyError:
            ctx.nontrivial("missing name")
            return
        fail("%r without a value for %s gives %r" % (src, used[0], got))
    require_eq(ampl_format(src, **kw), want, "ampl_format(%r)" % src)
    if used and re.search("[{}]", src.replace("{{", "").replace("}}", "")):
        ctx.nontrivial("single braces too")
    elif used:
        ctx.nontrivial()


# ------------------------------------------------------------------------------------------- LogFile
@st.composite
def _log(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(0, 7))
        m = draw(st.integers(0, 15))
        cell = st.one_of(st.integers(-5, 5), st.sampled_from(["a", "", "long text " * 4, "é", "x" * 18, "y" * 30, "z" * 25, None, 2.5]))
        ops.append(draw(st.sampled_from(["table"] * 4 + ["write", "ragged", "empty", "flat"])))
        ops[-1] = [ops[-1], draw(st.sampled_from(["t1", "big table", "%s"])), [[draw(cell) for _ in range(n)] for _ in range(m + 1)], draw(st.sampled_from([None, 0, 1, 2, 5, 14, 100])), draw(st.booleans()), draw(st.sampled_from(["list", "tuple", "mixed"]))]
    return {"ops": ops, "path": draw(st.integers(0, 5)) > 0, "with": draw(st.booleans())}


def check_log(case, ctx):
    from ticdat.utils import LogFile, TicDatError
    path = os.path.join(ctx.tmpdir(), "log.txt") if case["path"] else None
    log = LogFile(path)
    want = ""

    def run(log):
        nonlocal want
        for k, name, seq, max_write, fmt, how in case["ops"]:
            if k == "write":
                log.write("free text %s\n" % name)
                want += "free text %s\n" % name
                continue
            kw = {"max_write": max_write} if max_write is not None else {}
            if fmt:
                kw["formatter"] = lambda x: "<%r>" % (x,)
            form = (lambda x: "<%r>" % (x,)) if fmt else (lambda x: "%s" % (x,))
            arg = seq if how == "list" else tuple(map(tuple, seq)) if how == "tuple" else [tuple(r) if i % 2 else r for i, r in enumerate(seq)]
            if k in ("ragged", "empty", "flat"):
                arg = {"ragged": list(seq) + [[1] * (len(seq[0]) + 1)], "empty": [], "flat": [1, 2]}[k]
                try:
                    log.log_table(name, arg, **kw)
                except TicDatError:
                    continue
                fail("log_table(%s) is not refused" % (arg,))
            log.log_table(name, arg, **kw)
            most = 10 if max_write is None else max_write
            width = {3: 25, 4: 20}.get(len(seq[0]), 30 if len(seq[0]) <= 2 else 18)
            want += "Table %s:\n" % name
            if len(seq) - 1 > most:
                want += "(Showing first %s entries out of %s in total)\n" % (most, len(seq) - 1)
                ctx.nontrivial("cut")
            for row in seq[:most + 1]:
                want += "".join(form(c) + " " * (width - len(form(c))) for c in row) + "\n"
            want += "\n"
            if len(seq) > 1 and seq[0]:
                ctx.nontrivial()
    if case["with"]:
        with log as l:
            run(l)
    else:
        run(log)
        log.close()
    if path:
        with open(path) as f:
            require_eq(f.read(), want, "the log file")


# ------------------------------------------------------------------------------------------- deep_freeze, deep_copy
leaf = st.one_of(st.integers(-2, 5), st.sampled_from(["a", "", "é", None, True, 2.5, INF]))
hashy = st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=3).map(lambda v: {"tuple": v}), st.lists(leaf, max_size=3).map(lambda v: {"frozenset": v})), max_leaves=5)
nested = st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=3).map(lambda v: {"list": v}), st.lists(s, max_size=3).map(lambda v: {"tuple": v}), st.lists(leaf, max_size=3).map(lambda v: {"set": v}),
                                                st.lists(leaf, max_size=3).map(lambda v: {"frozenset": v}), st.lists(st.tuples(hashy, s), max_size=3).map(lambda v: {"dict": [list(x) for x in v]})), max_leaves=12)


def thaw(v):
    if not isinstance(v, dict):
        return v
    [(k, x)] = v.items()
    if k == "dict":
        return {thaw(a): thaw(b) for a, b in x}
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[k](map(thaw, x))


def edits(x, path=()):
    """every mutable container reachable from x, as (path, object)"""
    out = []
    if isinstance(x, (list, dict, set)):
        out.append((path, x))
    if isinstance(x, dict):
        for k, v in x.items():
            out += edits(v, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            out += edits(v, path + (i,))
    return out


def frozen_model(x):
    if isinstance(x, dict):
        return ("dict", {frozen_model(k): frozen_model(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return tuple(map(frozen_model, x))
    if isinstance(x, (set, frozenset)):
        return frozenset(map(frozen_model, x))
    return x


def check_deep(case, ctx):
    from ticdat.utils import deep_freeze, deep_copy, FrozenDict, TicDatError
    x, ref = thaw(case["x"]), thaw(case["x"])
    c = deep_copy(x)
    typed = lambda v: repr(type(v)) + (repr(sorted((typed(k), typed(w)) for k, w in v.items())) if isinstance(v, dict) else repr([typed(w) for w in v]) if isinstance(v, (list, tuple)) else
                                       repr(sorted(map(typed, v))) if isinstance(v, (set, frozenset)) else repr(v))
    require_eq(typed(c), typed(ref), "deep_copy(%s)" % (ref,))
    fz = deep_freeze(x)

    def seen(v):
        if isinstance(v, dict):
            require(isinstance(v, FrozenDict), "deep_freeze leaves a %s", type(v))
            for op in (lambda: v.__setitem__("new", 1), lambda: v.clear(), lambda: v.update({"n": 1}), lambda: v.setdefault("n", 1), lambda: v.pop("n", None), lambda: setattr(v, "n", 1)):
                try:
                    op()
                except TicDatError:
                    continue
                fail("a frozen dict was edited")
            return ("dict", {seen(k): seen(w) for k, w in v.items()})
        require(not isinstance(v, (list, set)), "deep_freeze leaves a %s", type(v))
        if isinstance(v, tuple):
            return tuple(map(seen, v))
        if isinstance(v, frozenset):
            return frozenset(map(seen, v))
        return v
    require_eq(seen(fz), frozen_model(ref), "deep_freeze(%s)" % (ref,))
    require_eq(typed(x), typed(ref), "the argument after deep_freeze and deep_copy")
    places = edits(x)
    if places:
        ctx.nontrivial("nested" if len(places) > 1 else "flat")
    for i, (path, obj) in enumerate(places):  # edits of the original do not reach the copies
        obj.append("edit") if isinstance(obj, list) else obj.add("edit") if isinstance(obj, set) else obj.update(edit=1)
    require_eq(typed(c), typed(ref), "the copy after the original was edited")
    require_eq(seen(fz), frozen_model(ref), "the frozen object after the original was edited")
    again = deep_copy(fz)
    for path, obj in edits(again):  # an unfrozen copy can be edited
        obj.append("edit") if isinstance(obj, list) else obj.add("edit") if isinstance(obj, set) else obj.update(edit=1)
    require_eq(seen(fz), frozen_model(ref), "the frozen object after its copy was edited")


# ------------------------------------------------------------------------------------------- nearly_same and names
num = st.one_of(st.integers(-5, 5), st.sampled_from([0.0, 1e-11, -1e-11, 1e-9, 1e-5, 0.5, 100, 100.001, 99.999, -100, -100.001, 1e20, 1.00001e20, INF, -INF, 1e308, -1e308]), st.floats(-1e6, 1e6))


@st.composite
def _num(draw):
    a = draw(num)
    b = draw(st.one_of(num, st.sampled_from([1 + 1e-6, 1 + 1e-5, 0.9999, 1, -1]).map(lambda k: a * k)))
    return {"a": a, "b": b, "eps": draw(st.sampled_from([1e-6, 1e-5, 1e-3, 0.1, 0.5, 1, 1.5, 2.5])), "name": draw(st.text("abT_0", max_size=12)), "n": draw(st.integers(0, 10 ** 6)), "base": draw(st.integers(2, 40)),
            "set": draw(st.lists(st.integers(0, 9), max_size=5, unique=True))}


def check_num(case, ctx):
    from ticdat import utils as u
    a, b, eps = case["a"], case["b"], case["eps"]
    m = max(abs(a), abs(b))
    if a == b:
        want = True
    elif math.isinf(m):
        want = False
    elif m <= 1e-10:
        want = True
    else:
        r = abs(a / m - b / m)
        want = None if abs(r - eps) < 1e-9 else r < eps
        if math.isinf(float(a) - float(b)):
            want = None  # the difference overflows
    got, back = bool(u.nearly_same(a, b, eps)), bool(u.nearly_same(b, a, eps))
    require_eq(got, back, "nearly_same(%r, %r, %s) turned around" % (a, b, eps))
    if want is not None:
        require_eq(got, want, "nearly_same(%r, %r, %s)" % (a, b, eps))
    if a != b and not math.isinf(m):
        ctx.nontrivial("near" if got else "apart")
    t = case["name"]
    p = u.case_space_to_pretty(t)
    require_eq(p.lower().replace(" ", "_"), t.lower(), "case_space_to_pretty(%r)" % t)
    if t:
        words = t.split("_")
        require_eq(p, " ".join(w[:1].upper() + w[1:] for w in words), "case_space_to_pretty(%r)" % t)
    alts = u.all_underscore_replacements(t)
    n = t.count("_")
    require(len(alts) == len(set(alts)) == 2 ** n and all(x.replace(" ", "_") == t for x in alts), "all_underscore_replacements(%r): %s", t, alts)
    d = u.baseConverter(case["n"], case["base"])
    require(all(0 <= x < case["base"] for x in d) and sum(x * case["base"] ** i for i, x in enumerate(reversed(d))) == case["n"] and (d[0] or d == [0]), "baseConverter(%s, %s): %s", case["n"], case["base"], d)
    subs = u.all_subsets(set(case["set"]))
    require(len(subs) == 2 ** len(case["set"]) and len({frozenset(x) for x in subs}) == len(subs) and all(x <= set(case["set"]) for x in subs), "all_subsets(%s)", case["set"])


# ------------------------------------------------------------------------------------------- Progress
@st.composite
def _progress(draw):
    v = st.sampled_from([0, 1, -1, 2.5, -7.25, 100, 1e6, 1e100, -1e100, 99.9995, 100.0005])
    return {"solver": draw(st.sampled_from(["plain", "gurobi", "cplex", "xpress"])), "sense": draw(st.sampled_from(["minimize", "maximize"])), "quiet": draw(st.booleans()),
            "events": [[draw(st.one_of(v, st.none())), draw(v), draw(st.integers(0, 5)) > 0, draw(st.booleans())] for _ in range(draw(st.integers(1, 5)))]}


def check_progress(case, ctx):
    import ticdat
    from ticdat import utils as u
    seen = []

    class Watching(ticdat.Progress):
        keep = True

        def mip_progress(self, theme, lower_bound, upper_bound):
            seen.append((theme, lower_bound, upper_bound))
            out = io.StringIO()
            bad = False
            with contextlib.redirect_stdout(out):
                try:
                    r = ticdat.Progress.mip_progress(self, theme, lower_bound, upper_bound)
                except u.TicDatError:
                    bad = True
            require_eq(bad, not lower_bound - abs(lower_bound) * 1e-5 <= upper_bound, "bounds %s, %s are refused" % (lower_bound, upper_bound))
            if not bad:
                require(r is True, "mip_progress returns %s", r)
                text = "" if case["quiet"] else "%s:%s:%s\n" % (theme.ljust(30), ("%.5f" % lower_bound).ljust(20), "%.5f" % upper_bound)
                require_eq(out.getvalue(), text, "printed")
            return self.keep
    p = Watching(quiet=case["quiet"])
    sense, solver = case["sense"], case["solver"]
    order = lambda best, bound: (bound, best) if sense == "minimize" else (best, bound)
    stopped = []
    if solver == "plain":
        for best, bound, keep, _ in case["events"]:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                require(p.numerical_progress("theme", bound) is True, "numerical_progress asks to stop")
            require_eq(out.getvalue(), "" if case["quiet"] else "%s:%.5f\n" % ("theme".ljust(40), bound), "printed")
            for args in ((5, 1), ("a", "b")):
                try:
                    p.numerical_progress(*args)
                except u.TicDatError:
                    continue
                fail("numerical_progress%s is not refused" % (args,))
            p.mip_progress("theme", bound, best if best is not None else INF)
        ctx.nontrivial("plain")
        return
    if solver == "gurobi":
        if u.gu is None:
            return
        cb = u.gu.GRB.callback

        class M:
            def cbGet(self, what):
                return {cb.MIP_OBJBST: self.best, cb.MIP_OBJBND: self.bound}[what]

            def terminate(self):
                stopped.append(1)
        m = M()
        f = p.gurobi_call_back_factory("theme", m, *([sense] if sense == "maximize" else []))
        for best, bound, keep, at in case["events"]:
            best = 1e100 if best is None else best
            m.best, m.bound, p.keep = best, bound, keep
            n, k = len(seen), len(stopped)
            f(m, cb.MIP if at else cb.MIPSOL)
            require_eq(seen[n:], [("theme",) + order(best, bound)] if at else [], "progress relayed from gurobi (%s)" % sense)
            require_eq(len(stopped) - k, int(at and not keep), "calls of terminate")
            ctx.nontrivial("gurobi")
    elif solver == "cplex":
        if u.cplexprogress is None:
            return
        got = []

        class M:
            add_progress_listener = staticmethod(got.append)
        p.add_cplex_listener("theme", M(), *([sense] if sense == "maximize" else []))
        [l] = got

        class Data:
            pass
        for best, bound, keep, _ in case["events"]:
            d = Data()
            d.current_objective, d.best_bound, p.keep = best, bound, keep
            l.abort = lambda: stopped.append(1)
            n, k = len(seen), len(stopped)
            l.notify_progress(d)
            none = INF if sense == "minimize" else -INF
            require_eq(seen[n:], [("theme",) + order(none if best is None else best, bound)], "progress relayed from cplex (%s)" % sense)
            require_eq(len(stopped) - k, int(not keep), "calls of abort")
            ctx.nontrivial("cplex")
    else:
        got = []

        class P:
            def addcbmiplog(self, callback, data, priority):
                got.append((callback, data, priority))

            class attributes:
                pass
        prob = P()
        p.add_xpress_callback("theme", prob, *([sense] if sense == "maximize" else []))
        [(f, data, _)] = got
        for best, bound, keep, _ in case["events"]:
            best = 1e40 if best is None else best
            P.attributes.mipobjval, P.attributes.bestbound, p.keep = best, bound, keep
            n = len(seen)
            r = f(prob, data)
            require_eq(seen[n:], [("theme",) + order(best, bound)], "progress relayed from xpress (%s)" % sense)
            require_eq(bool(r), not keep, "result of the xpress callback")
            ctx.nontrivial("xpress")


# ------------------------------------------------------------------------------------------- reserved keywords
@st.composite
def _words(draw):
    spec = draw(gen.full_spec(params=False, fks=False, datetime_ok=True))
    fs = sorted({f for v in spec["tables"].values() for f in v[0] + v[1]})
    return {"spec": spec, "words": draw(st.lists(st.sampled_from(fs), unique=True, max_size=4))}


def check_words(case, ctx):
    from ticdat.utils import change_fields_with_reserved_keywords as change
    spec, words = case["spec"], [w.lower() for w in case["words"]]
    tdf = gen.tdf_of(spec)
    new = change(tdf, words)
    to = lambda f: "_" + f if f.lower() in words else f
    for g, m, what in ((new, to, "renamed"), (change(new, words, undo=True), lambda f: f, "renamed and back")):
        require_eq(g.schema(), {t: [list(map(m, a)), list(map(m, b))] for t, (a, b) in tdf.schema().items()}, "schema %s" % what)
        for name in ("default_values", "data_types"):
            old, got = getattr(tdf, name), getattr(g, name)
            require_eq({t: {f: v for f, v in d.items()} for t, d in got.items() if d}, {t: {m(f): v for f, v in d.items()} for t, d in old.items() if d}, "%s %s" % (name, what))
    if any(f.lower() in words for v in spec["tables"].values() for f in v[0] + v[1]):
        ctx.nontrivial()


@st.composite
def _twins(draw):
    field = st.sampled_from(["a b", "a_b", "A c", "a_C", "a", "b", "x y z", "x_y z", "x_y_z", " a", "_a", "q", "ab", "a  b", "a__b"])
    tabs = {}
    for t in draw(st.lists(st.sampled_from(["t", "u_v", "W"]), min_size=1, max_size=3, unique=True)):
        fs = draw(st.lists(field, min_size=1, max_size=4, unique_by=str.lower))
        k = draw(st.integers(0, len(fs)))
        tabs[t] = [fs[:k], fs[k:]]
    return {"tables": tabs, "pan": draw(st.booleans())}


def check_twins(case, ctx):
    import ticdat
    from ticdat.utils import find_case_space_duplicates
    f = (ticdat.PanDatFactory if case["pan"] else ticdat.TicDatFactory)(**case["tables"])
    alike = lambda a, b: len(a) == len(b) and all(x == y or {x, y} == {" ", "_"} for x, y in zip(a.lower(), b.lower()))
    want = {}
    for t, (pks, dfs) in case["tables"].items():
        fs = pks + dfs
        if any(alike(a, b) for i, a in enumerate(fs) for b in fs[:i]):
            want[t] = set(fs)
    require_eq({t: set(v) for t, v in find_case_space_duplicates(f).items()}, want, "find_case_space_duplicates")
    if want:
        ctx.nontrivial()


FACETS = [Facet("twins", check_twins, _twins, quick=300, rule="two fields of a table differ in space and underscore only"),
          Facet("df apply", check_apply, _frame, quick=1500, rule="at least two rows"),
          Facet("ampl", check_ampl, _ampl, quick=1500, rule="some name is substituted"),
          Facet("log", check_log, _log, quick=800, rule="a table with rows is logged"),
          Facet("deep", check_deep, lambda: st.fixed_dictionaries({"x": nested}), quick=1500, rule="a mutable container is reachable"),
          Facet("numbers", check_num, _num, quick=2000, rule="two different finite numbers"),
          Facet("progress", check_progress, _progress, quick=1000, rule="an event was relayed"),
          Facet("keywords", check_words, _words, quick=500, rule="a field was renamed")]
