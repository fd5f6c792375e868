import zlib
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p08 import odd_frames
from .p10 import native, check_cap

TECHNIQUE = ("reference model over random predicates and kwargs makers with injected faults (falsy, non-True, raising, non-dict results), instrumented so "
             "that every call, row and argument seen is checked; TicDat, PanDat and clones with convert_dat")
NOTE = "Predicates decide by a hash of the row and the kwargs, so any row set can fail. Numpy booleans as error-message results are not generated."
TEXTS = ["bad", "worse\nthan bad", "é %s"]


class Boom(Exception):
    pass


def outcome(spec, row, kwargs):
    """what the predicate does with a row: ('ret', value) or ('raise', text)"""
    h = zlib.crc32(repr((spec["salt"], sorted((str(f), gen.norm(v)) for f, v in row.items()),
                         sorted(kwargs.items()))).encode())
    return spec["outcomes"][h % len(spec["outcomes"])]


def make_predicate(p, log):
    def predicate(row, **kwargs):
        log.append(({k: native(v) for k, v in row.items()}, dict(kwargs)))
        k, v = outcome(p, row, kwargs)
        if k == "raise":
            raise Boom(v)
        return v
    return predicate


class Converted:
    def __init__(self, dat):
        self.dat = dat


def maker_result(m, converted, nrows):
    k = m["kind"]
    if k == "rows":
        return {"n": nrows, "c": converted}
    return {"empty": {}, "const": {"shift": 3, "name": "z"}, "none": None, "list": [("a", 1)], "text": "shift",
            "raise": Boom}[k]


def make_maker(m, log):
    def maker(dat):
        log.append(dat)
        conv = isinstance(dat, Converted)
        d = dat.dat if conv else dat
        r = maker_result(m, conv, len(getattr(d, m["table"])))
        if r is Boom:
            raise Boom("maker trouble")
        return r
    return maker


@st.composite
def _case(draw):
    fpool = gen.FIELD_NAMES[:10] + ["Error Message", "Error Message (1)"]
    spec = {"tables": draw(gen.tables(1, 3, max_pk=2, max_df=3, fpool=fpool))}
    names = list(spec["tables"])
    cells = {}
    for t, v in spec["tables"].items():
        for f in v[0] + v[1]:
            cells[t, f] = draw(st.sampled_from([st.integers(0, 5), st.sampled_from(["a", "b", "c"]),
                                                st.sampled_from([0.5, 1.5, 2.0]), st.sampled_from([1, "a", 2.5])] +
                                               ([st.sampled_from([None, 1, "x"]), st.booleans()] if f in v[1] else [])))
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 6))
    makers = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["rows", "rows", "rows", "empty", "const", "const", "none", "list", "text", "raise"]),
        "table": st.sampled_from(names)}), min_size=1, max_size=3))

    @st.composite
    def pred(draw):
        msg = draw(st.booleans())
        outs = [["ret", True]] * draw(st.integers(1, 3))
        bad = [["ret", v] for v in TEXTS + ([False, None, "True"] if msg else [])] if msg else \
            [["ret", False], ["ret", 0], ["ret", None], ["ret", ""], ["ret", "truthy"], ["ret", 5]]
        outs = outs + draw(st.lists(st.sampled_from(bad), max_size=3)) + ([["raise", "pred %s trouble"]]
                                                                        if draw(st.integers(0, 4)) == 0 else [])
        return {"table": draw(st.sampled_from(names)), "name": draw(st.sampled_from([None, None, "p", "q", 0, 1])),
                "msg": msg, "outcomes": outs, "salt": draw(st.integers(0, 5)),
                "maker": draw(st.one_of(st.none(), st.integers(0, len(makers) - 1))), "remove": draw(st.integers(0, 6)) == 0}
    clone = draw(st.sampled_from([None, None, "plain", "convert", "convert", "cross", "convert then plain", "convert beside plain"]))
    return {"spec": spec, "data": data, "makers": makers, "preds": draw(st.lists(pred(), min_size=1, max_size=5)),
            "more": draw(st.lists(pred(), max_size=3)) if clone else [], "clone": clone,
            "convert_raises": bool(clone and draw(st.integers(0, 5)) == 0),
            "mode": draw(st.sampled_from(["Handled as Failure"] * 4 + ["Unhandled", "__debug__", None])),
            "max": draw(st.integers(1, 8)),
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans())}


class Setup:
    """the factory with its predicates, and the model of them: {(table, name): (pred, plog, converted)}"""
    def __init__(self, case, cls):
        spec = case["spec"]
        self.mlogs = [[] for _ in case["makers"]]
        self.makers = [make_maker(m, log) for m, log in zip(case["makers"], self.mlogs)]
        self.conv_calls = []
        clone = case["clone"]
        base = {"T": "P", "P": "T"}[cls] if clone == "cross" else cls
        f = gen.tdf_of(spec) if base == "T" else gen.pdf_of(spec)
        self.preds = {}
        for p in case["preds"]:
            self.add(f, p, False)
        if clone:
            from ticdat import TicDatFactory, PanDatFactory
            kw = {}
            if clone == "cross":
                kw["clone_factory"] = TicDatFactory if cls == "T" else PanDatFactory
            if clone != "plain":
                kw["convert_dat"] = self.convert
                self.preds = {k: (p, log, p["maker"] is not None) for k, (p, log, _) in self.preds.items()}
            self.raises = case["convert_raises"]
            f = f.clone(**kw)
            if clone == "convert then plain":
                f = f.clone()
            if clone == "convert beside plain":  # what the clone's clone gets leaves the clone alone
                other = f.clone()
                for p in case["more"] + case["preds"]:
                    other.add_data_row_predicate(p["table"], None if p.get("remove") else lambda row: True, predicate_name=p["name"])
            else:
                for p in case["more"]:
                    self.add(f, p, False)
        self.f = f

    def convert(self, dat):
        self.conv_calls.append(dat)
        if self.raises:
            raise Boom("convert trouble")
        return Converted(dat)

    def add(self, f, p, converted):
        t, name = p["table"], p["name"]
        if p.get("remove"):
            f.add_data_row_predicate(t, None, predicate_name=name)
            self.preds.pop((t, name), None)
            return
        if name is None:
            name = 0
            while (t, name) in self.preds:
                name += 1
        log = []
        f.add_data_row_predicate(t, make_predicate(p, log), predicate_name=p["name"],
                                 predicate_kwargs_maker=None if p["maker"] is None else self.makers[p["maker"]],
                                 predicate_failure_response="Error Message" if p["msg"] else "Boolean")
        self.preds[t, name] = (p, log, converted)

    def clear(self):
        for l in self.mlogs + [l for _, l, _ in self.preds.values()] + [self.conv_calls]:
            l.clear()


def model(case, setup, rows):
    """rows: {t: [row dicts]}.  -> ({(t, name): ('bulk', text) or [(row index, text or None)]}, does anything raise, kwargs)"""
    want, raises, kws = {}, False, {}
    for (t, name), (p, _, conv) in setup.preds.items():
        kw = {}
        if p["maker"] is not None:
            m = case["makers"][p["maker"]]
            if conv and setup.raises:
                raises = True
                want[t, name] = ("bulk", "convert trouble")
                continue
            kw = maker_result(m, conv, len(rows[m["table"]]))
            if kw is Boom:
                raises = True
                want[t, name] = ("bulk", "maker trouble")
                continue
            if not isinstance(kw, dict):
                want[t, name] = ("bulk", None)
                continue
        kws[t, name] = kw
        bad = []
        for i, row in enumerate(rows[t]):
            k, v = outcome(p, row, kw)
            if k == "raise":
                raises = True
                bad.append((i, v))
            elif p["msg"] and v is not True:
                bad.append((i, str(v)))
            elif not p["msg"] and not v:
                bad.append((i, None))
        if bad:
            want[t, name] = bad
    return want, raises, kws


def check_calls(case, setup, dat, rows, kws):
    for i, log in enumerate(setup.mlogs):
        used = {conv for p, _, conv in setup.preds.values() if p["maker"] == i and not (conv and setup_raises(setup))}
        seen = [isinstance(d, Converted) for d in log]
        require(sorted(seen) == sorted(used), "maker %s was called with %s (True: converted), expected one call for each of %s",
                i, seen, sorted(used))
        for d in log:
            require((d.dat if isinstance(d, Converted) else d) is dat, "a maker was given another data object")
    require(len(setup.conv_calls) <= 1, "convert_dat was called %s times", len(setup.conv_calls))
    for (t, name), (p, log, conv) in setup.preds.items():
        if (t, name) not in kws:
            require(not log, "predicate %s of %s was called although its maker failed", name, t)
            continue
        got = [({k: gen.norm(v) for k, v in r.items()}, kw) for r, kw in log]
        require_eq(got, [({k: gen.norm(v) for k, v in r.items()}, kws[t, name]) for r in rows[t]],
                   "calls of predicate %s of %s (row, kwargs)" % (name, t))


def setup_raises(setup):
    return getattr(setup, "raises", False)


def search(setup, dat, case, **kw):
    if case["mode"]:
        kw["exception_handling"] = case["mode"]
    setup.clear()
    try:
        return setup.f.find_data_row_failures(dat, **kw), False
    except Boom:
        return None, True


def bulk(v):
    return hasattr(v, "primary_key") and hasattr(v, "error_message")


def check_bulk(k, v, w):
    require(w[0] == "bulk", "%s: bulk failure %s reported, expected rows %s", k, v, w)
    require_eq(v.primary_key, "*", "primary_key of the bulk failure of %s" % (k,))
    require(isinstance(v.error_message, str) and v.error_message, "%s: bulk message %r", k, v.error_message)
    if w[1]:
        require(w[1] in v.error_message, "%s: bulk message %r does not carry the exception text %r", k, v.error_message, w[1])


def text_ok(got, want):
    return got == want or (want.endswith("trouble") and want in got)


def sized(d):
    return {k: [0] if not isinstance(v, list) and v[0] == "bulk" else v for k, v in d.items()}


def run(case, ctx, cls):
    spec, data = case["spec"], case["data"]
    setup = Setup(case, cls)
    if not hasattr(setup, "raises"):
        setup.raises = False
    f = setup.f
    if cls == "T":
        dat = gen.make_td(f, spec, data)
        rows = {t: [gen.row_dict(spec, t, r) for r in data[t]] for t in spec["tables"]}
    else:
        dat = gen.make_pd(f, spec, data)
        odd_frames(spec, f, dat, case["index"], case["extra"])
        rows = {t: [{c: native(v) for c, v in zip(df.columns, r)} for r in df.itertuples(index=False, name=None)]
                for t, df in ((t, getattr(dat, t)) for t in spec["tables"])}
        # a frame's None and NaN are both null
    want, raises, kws = model(case, setup, rows)
    handled = case["mode"] == "Handled as Failure"
    ids = {t: {gen.pk_of(spec, t, r) if spec["tables"][t][0] else i: i for i, r in enumerate(data[t])} for t in data}

    def read_td(res):
        out = {}
        with interpreting("row failures"):
            for k, v in res.items():
                t, name = k.table, k.predicate_name
                require((t, name) in want, "%s reported, expected no failure", k)
                p = setup.preds[t, name][0]
                if bulk(v):
                    check_bulk(k, v, want[t, name])
                    out[t, name] = want[t, name]
                    continue
                require(want[t, name][0] != "bulk", "%s: rows %s reported, expected a bulk failure", k, v)
                got = [(ids[t][x.primary_key], x.error_message) if p["msg"] else (ids[t][x], None) for x in v]
                out[t, name] = match(k, got, want[t, name])
        return out

    def match(k, got, w):
        texts = dict(w)
        require(len({i for i, _ in got}) == len(got), "%s repeats rows: %s", k, got)
        for i, msg in got:
            require(i in texts, "%s: row %s reported, expected %s", k, i, w)
            if setup.preds[tuple(k)][0]["msg"]:
                require(msg is None or text_ok(str(msg), texts[i]), "%s: message %r, expected %r", k, msg, texts[i])
        return [x for x in w if x[0] in {i for i, _ in got}]

    def read_pd(res, as_table):
        out = {}
        with interpreting("row failures"):
            for k, v in res.items():
                t, name = k.table, k.predicate_name
                require((t, name) in want, "%s reported, expected no failure", k)
                p = setup.preds[t, name][0]
                if bulk(v):
                    check_bulk(k, v, want[t, name])
                    out[t, name] = want[t, name]
                    continue
                require(want[t, name][0] != "bulk", "%s: rows reported, expected a bulk failure", k)
                df = getattr(dat, t)
                if not as_table:
                    require(list(v.index) == list(df.index), "index of the failure flags of %s", k)
                    out[t, name] = match(k, [(i, None) for i, b in enumerate(v) if b], want[t, name])
                    continue
                cols = list(df.columns)
                require_eq(list(v.columns)[:len(cols)], cols, "columns of the failing rows of %s" % (k,))
                new = list(v.columns)[len(cols):]
                require(len(new) == (1 if p["msg"] else 0), "%s: columns added to the failing rows: %s", k, new)
                idx = [i for i, _ in want[t, name]]
                got = gen.norm_rows(list(r) for r in v[cols].itertuples(index=False, name=None))
                exp = gen.norm_rows(list(rows[t][i].values()) for i in idx)
                require_eq(got, exp, "failing rows of %s" % (k,))
                require_eq(list(v.index), [list(df.index)[i] for i in idx], "index of the failing rows of %s" % (k,))
                if p["msg"]:
                    require_eq(new[0], "Error Message" if "Error Message" not in cols else next(
                        c for c in ("Error Message (%s)" % i for i in range(1, 9)) if c not in cols), "error column")
                    for m, (i, txt) in zip(v[new[0]], want[t, name]):
                        require(text_ok(str(m), txt), "%s: message %r for row %s, expected %r", k, m, i, txt)
                out[t, name] = want[t, name]
        return out

    read = read_td if cls == "T" else lambda r: read_pd(r, False)
    kw = {} if cls == "T" else {"as_table": False}
    for as_table in ([None] if cls == "T" else [False, True]):
        res, boom = search(setup, dat, case, **({} if cls == "T" else {"as_table": as_table}))
        if raises and not handled:
            require(boom, "an exception of a predicate, maker or conversion was not propagated (%s)", case["mode"])
            ctx.nontrivial("propagated")
            return
        require(not boom, "an exception of a predicate or maker was propagated (%s)", case["mode"])
        got = read_td(res) if cls == "T" else read_pd(res, as_table)
        require_eq(got, want, "row failures")
        check_calls(case, setup, dat, rows, kws)
    total, cap = sum(map(len, sized(want).values())), case["max"]
    res, boom = search(setup, dat, case, max_failures=cap, **kw)
    require(not boom, "an exception was propagated with max_failures (%s)", case["mode"])
    check_cap(sized_sets(read(res)), sized_sets(want), total, cap)
    for k in want:
        if want[k][0] == "bulk":
            ctx.label("bulk failure")
    if case["clone"] and "conv" in case["clone"]:
        ctx.label("converted")
    if any(v[0] != "bulk" for v in want.values()):
        ctx.nontrivial("rows fail")
    elif want:
        ctx.nontrivial("only bulk failures")
    elif any(rows[t] for t, _ in setup.preds):
        ctx.nontrivial("clean")


def sized_sets(d):
    return {k: ["bulk"] if v[0] == "bulk" else [i for i, _ in v] for k, v in d.items()}


FACETS = [
    Facet("ticdat", lambda c, x: run(c, x, "T"), _case, quick=7000,
          rule="some row fails, or predicates saw rows and none fails, or an exception is propagated, or only makers fail"),
    Facet("pandat", lambda c, x: run(c, x, "P"), _case, quick=2500,
          rule="some row fails, or predicates saw rows and none fails, or an exception is propagated, or only makers fail"),
]
