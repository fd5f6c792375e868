import contextlib, io, copy, json, datetime
from hypothesis import strategies as st
from .. import gen
from ..gen import INF
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = "stateful: random setter histories against a dict model of the schema, then rebuild round trips (direct, JSON text, across factories)"
NOTE = ("Histories of 0-14 setter calls, invalid ones included (must raise TicDatError and change nothing). Rebuilt factories are "
        "compared by schema and by the rows, parameters and DataFrames they produce.")

OPTIONAL = ["parameters", "infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init",
            "automunge_multitype_fields", "tooltips"]
FRESH = {"infinity_io_flag": "N/A", "xlsx_trailing_empty_rows": "prune", "duplicates_ticdat_init": "assert",
         "automunge_multitype_fields": True, "tooltips": {}, "parameters": {}}
PARAMS = ["Size", "tol", "Mode", "p q"]


class Model:
    """what schema(include_ancillary_info=True) should say"""
    def __init__(self, tables):
        self.tables = tables
        self.fks, self.types, self.params, self.tips = set(), {}, {}, {}
        self.defaults = {t: {f: 0 for f in v[1]} for t, v in tables.items() if v != "*"}
        self.set = {k: v for k, v in FRESH.items() if k not in ("tooltips", "parameters")}
        self.used = False

    def fields(self, t):
        return [] if self.tables[t] == "*" else self.tables[t][0] + self.tables[t][1]

    def param_table(self):
        v = self.tables.get("parameters")
        return v if v and v != "*" and len(v[0]) == len(v[1]) == 1 else None

    def apply(self, op):
        """True if accepted"""
        k, a = op[0], op[1:]
        if k == "type":
            t, f, args = a
            if self.used or t not in self.tables or f not in self.fields(t):
                return False
            if t == "parameters" and f in self.tables[t][1] and self.params:
                return False
            number, _, _, lo, hi, _, strs, _, dt = args
            if not dt:
                if strs != "*" and not isinstance(strs, list):
                    return False
                if number and hi < lo:
                    return False
            self.types.setdefault(t, {})[f] = gen.normal_rule(args)
        elif k == "clear_type":
            t, f = a
            if f in self.types.get(t, {}):
                if self.used:
                    return False
                del self.types[t][f]
        elif k == "default":
            t, f, v = a
            if self.used or t not in self.tables or f not in self.fields(t) or isinstance(v, (list, dict)):
                return False
            self.defaults.setdefault(t, {})[f] = v
        elif k == "defaults":
            d = a[0]
            if self.used:
                return False
            for t, fs in d.items():
                for f, v in fs.items():
                    self.defaults.setdefault(t, {})[f] = v
        elif k == "fk":
            nt, ft, m = a
            if self.used or nt not in self.tables or ft not in self.tables or "*" in (self.tables[nt], self.tables[ft]):
                return False
            if not m or any(n not in self.fields(nt) or f not in self.fields(ft) for n, f in m):
                return False
            self.fks.add((nt, ft, frozenset((n, f) for n, f in m)))
        elif k == "clear_fks":
            t = a[0]
            if self.used or (t is not None and t not in self.tables):
                return False
            self.fks = {x for x in self.fks if t is not None and x[0] != t}
        elif k == "param":
            name, ty, dv = a
            p = self.param_table()
            if self.used or not p or p[1][0] in self.types.get("parameters", {}):
                return False
            if ty is not None:
                if ty[0] and not ty[8] and ty[4] < ty[3]:
                    return False
                if not gen.rule_ok(ty, dv):
                    return False
            self.params[name] = (None if ty is None else gen.normal_rule(ty), dv)
        elif k == "rm_param":
            if a[0] not in self.params:
                return False
            del self.params[a[0]]
        elif k == "tip":
            t, f, tip = a
            if t not in self.tables or (f and f not in self.fields(t)):
                return False
            if tip:
                self.tips.setdefault(t, {})[f] = tip
            else:
                self.tips.get(t, {}).pop(f, None)
        elif k in ("infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init",
                   "automunge_multitype_fields"):
            v = a[0]
            ok = {"infinity_io_flag": v == "N/A" or v is None or (
                      isinstance(v, (int, float)) and not isinstance(v, bool) and 0 < v < INF),
                  "xlsx_trailing_empty_rows": v in ("prune", "ignore"),
                  "duplicates_ticdat_init": v in ("assert", "warn", "ignore"),
                  "automunge_multitype_fields": v in (True, False)}[k]
            if not ok:
                return False
            self.set[k] = v
        else:
            raise AssertionError(k)
        return True

    def card(self, t, fs):
        pks = self.tables[t][0]
        return "one" if pks and set(pks) <= set(fs) else "many"

    def view(self, drop=()):
        fks = sorted((n, f, sorted(m), self.card(n, [x[0] for x in m]) + "-to-" + self.card(f, [x[1] for x in m]))
                     for n, f, m in self.fks)
        out = dict(self.set, tables_fields=self.tables, foreign_keys=fks,
                   default_values={t: d for t, d in self.defaults.items() if d},
                   data_types={t: d for t, d in self.types.items() if d},
                   parameters=self.params, tooltips={t: d for t, d in self.tips.items() if d})
        for k in drop:
            out[k] = FRESH[k]
        return out


def call(f, op):
    k, a = op[0], op[1:]
    if k == "type":
        f.set_data_type(a[0], a[1], *a[2])
    elif k == "clear_type":
        f.clear_data_type(*a)
    elif k == "default":
        f.set_default_value(*a)
    elif k == "defaults":
        f.set_default_values(**a[0])
    elif k == "fk":
        f.add_foreign_key(a[0], a[1], gen.apply_mapping(a[2]) if a[2] else a[2])
    elif k == "clear_fks":
        f.clear_foreign_keys(*([] if a[0] is None else a))
    elif k == "param":
        if a[1] is None:
            f.add_parameter(a[0], a[2], enforce_type_rules=False)
        else:
            f.add_parameter(a[0], a[2], *a[1])
    elif k == "rm_param":
        f.remove_parameter(*a)
    elif k == "tip":
        f.set_tooltip(*a)
    else:
        getattr(f, "set_" + k)(a[0])


def typed(v):
    """distinguish True, 1 and 1.0 only as bool or number"""
    return gen.norm(v)


def view_of(schema):
    """the full schema in the model's form"""
    with interpreting("full schema"):
        out = {}
        for k, v in schema.items():
            if k == "foreign_keys":
                fks = []
                for fk in v:
                    m = fk[2]
                    m = [tuple(m)] if isinstance(m[0], str) else [tuple(x) for x in m]
                    fks.append((fk[0], fk[1], sorted(m), fk[3]))
                out[k] = sorted(fks)
            elif k == "data_types":
                out[k] = {t: {f: tuple(tuple(x) if isinstance(x, list) else x for x in ty) for f, ty in d.items()}
                          for t, d in v.items() if d}
            elif k == "parameters":
                out[k] = {p: (None if ty is None else tuple(tuple(x) if isinstance(x, list) else x for x in ty), dv)
                          for p, (ty, dv) in v.items()}
            elif k in ("default_values", "tooltips"):
                out[k] = {t: dict(d) for t, d in v.items() if d}
            elif k == "tables_fields":
                out[k] = {t: "*" if d == "*" else [list(d[0]), list(d[1])] for t, d in v.items()}
            else:
                out[k] = v
        return out


def same_view(got, want, what):
    require_eq(sorted(got), sorted(want), what + ": keys of the full schema")
    for k in want:
        g, w = got[k], want[k]
        if k == "default_values":
            g = {t: {f: typed(x) for f, x in d.items()} for t, d in g.items()}
            w = {t: {f: typed(x) for f, x in d.items()} for t, d in w.items()}
        if k == "parameters":
            g = {p: (ty, typed(x)) for p, (ty, x) in g.items()}
            w = {p: (ty, typed(x)) for p, (ty, x) in w.items()}
        require_eq(g, w, "%s: %s" % (what, k))


@st.composite
def ops_for(draw, tabs, n_max=14):
    ts = sorted(tabs) + ["nosuch"]
    fld = {t: (["nofield"] if v == "*" else v[0] + v[1]) for t, v in tabs.items()}
    fld["nosuch"] = ["f"]
    out = []

    def tf(bad):
        t = draw(st.sampled_from(ts if bad else ts[:-1]))
        return t, draw(st.sampled_from(fld[t] + (["nofield"] if bad else [])))
    kinds = ["type"] * 5 + ["clear_type"] * 2 + ["default"] * 3 + ["defaults", "fk", "fk", "fk", "fk", "clear_fks"] + \
            ["tip"] * 3 + ["infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init",
                           "automunge_multitype_fields"]
    if "parameters" in tabs:
        kinds += ["param"] * 6 + ["rm_param"] * 2
    for _ in range(draw(st.integers(0, n_max))):
        k = draw(st.sampled_from(kinds))
        bad = draw(st.integers(0, 7)) == 0
        if k == "type":
            r = draw(gen.type_rule())
            if bad and draw(st.booleans()):
                r[3], r[4] = r[4], r[3]
            if bad and draw(st.integers(0, 3)) == 0:
                r[6] = "abc"
            t, f = tf(bad)
            out.append([k, t, f, r])
        elif k == "clear_type":
            out.append([k] + list(tf(bad)))
        elif k == "default":
            vals = [0, 1, -2.5, "d", "", None, True, False, 7, INF] + ([[1], {"a": 1}] if bad else [])
            t, f = tf(bad)
            out.append([k, t, f, draw(st.sampled_from(vals))])
        elif k == "defaults":
            d = {}
            for _ in range(draw(st.integers(0, 3))):
                t, f = tf(False)
                if tabs[t] != "*":
                    d.setdefault(t, {})[f] = draw(st.sampled_from([3, "dd", None, -1.5]))
            out.append([k, d])
        elif k == "fk":
            nt, ft = draw(st.sampled_from(ts if bad else ts[:-1])), draw(st.sampled_from(ts if bad else ts[:-1]))
            nf = draw(st.lists(st.sampled_from(fld[nt]), min_size=0 if bad else 1, max_size=5, unique=True))
            ff = draw(st.lists(st.sampled_from(fld[ft]), min_size=1, max_size=5, unique=True))
            # mapping order is kept canonical: permuted listings of one key are the same key
            out.append([k, nt, ft, sorted([a, b] for a, b in zip(nf, ff))])
        elif k == "clear_fks":
            out.append([k, draw(st.one_of(st.none(), st.sampled_from(ts)))])
        elif k == "param":
            ty, dv = draw(gen.param_decl())
            if bad and ty is not None:
                dv = draw(st.sampled_from([None, -99, 1e9, "zz", True]))
            out.append([k, draw(st.sampled_from(PARAMS)), ty, dv])
        elif k == "rm_param":
            out.append([k, draw(st.sampled_from(PARAMS))])
        elif k == "tip":
            t, f = tf(bad)
            out.append([k, t, draw(st.sampled_from(["", f])), draw(st.sampled_from(["", "", "tip", "a \"tip\" é", " ", " padded\n"]))])
        elif k == "infinity_io_flag":
            out.append([k, draw(st.sampled_from(["N/A", 1e6, 999, None] + ([-1, INF, "x", True, 0] if bad else [])))])
        elif k == "xlsx_trailing_empty_rows":
            out.append([k, draw(st.sampled_from(["prune", "ignore"] + (["x", None] if bad else [])))])
        elif k == "duplicates_ticdat_init":
            out.append([k, draw(st.sampled_from(["assert", "warn", "ignore"] + (["x", True] if bad else [])))])
        else:
            out.append([k, draw(st.sampled_from([True, False] + (["x", None] if bad else [])))])
    return out


@st.composite
def schema_tables(draw, lo=1, hi=4):
    tabs = draw(gen.tables(lo, hi))
    if draw(st.booleans()):
        k, v = draw(gen.fields(2, 2))
        tabs["parameters"] = [[k], [v]]
    if draw(st.integers(0, 3)) == 0:
        tabs["any_old_thing"] = "*"
    return tabs


@st.composite
def _case(draw):
    tabs = draw(schema_tables())
    return {"tables": tabs, "ops": draw(ops_for(tabs)), "cls": draw(st.sampled_from(["T", "P"])),
            "drop": draw(st.lists(st.sampled_from(OPTIONAL), unique=True, max_size=2)),
            "after": draw(ops_for(tabs, 3)), "use": draw(st.booleans())}


def check(case, ctx):
    import ticdat
    tabs, T, P = case["tables"], ticdat.TicDatFactory, ticdat.PanDatFactory
    cls = T if case["cls"] == "T" else P
    f = cls(**copy.deepcopy(tabs))
    m = Model(copy.deepcopy(tabs))

    def run(op):
        edges = {(x[0], x[1]) for x in m.fks}
        ok = m.apply(op)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                call(f, copy.deepcopy(op))
        except Exception as e:
            require(not ok, "%s refused with %r", op, e)
        else:
            require(ok, "%s accepted", op)
            if op[0] == "fk":  # a warning tells of circular foreign keys
                reach = {op[2]}
                for _ in tabs:
                    reach |= {b for a, b in edges if a in reach}
                require_eq("circular" in out.getvalue(), op[1] in reach, "circular foreign key warned of")
                ctx.label("circular" if op[1] in reach else "not circular")
        return ok
    n = 0
    for op in case["ops"]:
        before = m.view()
        ok = run(op)
        n += ok
        if not ok:
            same_view(view_of(f.schema(include_ancillary_info=True)), before, "after refused %s" % op[0])
            ctx.label("refused " + op[0])
    full = f.schema(include_ancillary_info=True)
    want = m.view()
    same_view(view_of(full), want, "schema after the history")
    require_eq(f.schema(), want["tables_fields"], "schema()")
    # the returned description is not the factory's own state
    for v in full["tables_fields"].values():
        if v != "*":
            v[0].append("bogus")
    same_view(view_of(f.schema(True)), want, "schema after editing a returned schema")
    full = f.schema(include_ancillary_info=True)
    text = json.loads(json.dumps(full))
    rebuilt = []
    for c, nm in ((T, "TicDatFactory"), (P, "PanDatFactory")):
        for how, sch in (("schema", full), ("JSON text", text)):
            r = c.create_from_full_schema(sch)
            require(isinstance(r, c), "wrong factory class")
            same_view(view_of(r.schema(include_ancillary_info=True)), want, "%s rebuilt from %s" % (nm, how))
            rebuilt.append(r)
    if case["drop"]:
        part = {k: v for k, v in text.items() if k not in case["drop"]}
        r = cls.create_from_full_schema(part)
        same_view(view_of(r.schema(True)), m.view(case["drop"]), "rebuilt without %s" % case["drop"])
        ctx.label("partial schema")
    # same behaviour
    for r in rebuilt:
        if isinstance(r, T):
            dat = r.TicDat()
            for t, v in tabs.items():
                if v == "*":
                    continue
                tbl = getattr(dat, t)
                if v[0]:
                    tbl[1 if len(v[0]) == 1 else tuple(range(len(v[0])))] = {}
                    row = list(tbl.values())[0]
                else:
                    tbl.append({})
                    row = tbl[0]
                require_eq({k: typed(x) for k, x in row.items()},
                           {k: typed(m.defaults.get(t, {}).get(k, 0)) for k in v[1]}, "defaulted row of %s" % t)
        if m.params and m.param_table():
            dat = r.TicDat() if isinstance(r, T) else r.PanDat()
            require_eq({k: typed(v) for k, v in r.create_full_parameters_dict(dat).items()},
                       {k: typed(datetime.datetime.fromisoformat(dv) if ty and ty[8] and isinstance(dv, str) else dv)
                        for k, (ty, dv) in m.params.items()}, "default parameters")
    # the original and the rebuilt are independent
    if case["after"]:
        r = cls.create_from_full_schema(full)
        for op in case["after"]:
            try:
                call(r, copy.deepcopy(op))
            except Exception:
                pass
        same_view(view_of(f.schema(True)), want, "original after editing the rebuilt factory")
        same_view(view_of(full), want, "description after editing the rebuilt factory")
    # once used, structural setters refuse and change nothing
    if case["use"]:
        (f.TicDat if cls is T else f.PanDat)()
        m.used = True
        for op in case["after"]:
            run(op)
            same_view(view_of(f.schema(True)), m.view(), "schema of a used factory after %s" % op[0])
        ctx.label("used")
    if n >= 2:
        ctx.nontrivial("2+ accepted setter calls")


@st.composite
def _ring_case(draw):
    """foreign keys that may close longer circles"""
    names = draw(st.lists(st.sampled_from(gen.TABLE_NAMES), unique=True, min_size=2, max_size=7))
    tabs = {t: [["k"], ["x"]] for t in names}
    n = len(names)
    edges = [(i, i + 1) for i in range(n - 1)] + [(n - 1, draw(st.integers(0, n - 1)))]
    edges += draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=3))
    edges = draw(st.permutations(edges)) if draw(st.booleans()) else edges
    ops = [["fk", names[i], names[j], [[draw(st.sampled_from(["k", "x"])), "k"]]] for i, j in edges]
    return {"tables": tabs, "ops": ops, "cls": draw(st.sampled_from(["T", "P"])), "drop": [], "after": [], "use": False}


FACETS = [Facet("rings", check, _ring_case, quick=1000, rule="at least two setter calls of the history were accepted"),
          Facet("history", check, _case, quick=8000, rule="at least two setter calls of the history were accepted")]
