import copy
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail
from .p05 import Model, call, view_of, same_view, ops_for, schema_tables

TECHNIQUE = "stateful: random setter histories then random clone/edit sequences, each step compared with a dict model of the schema; originals re-checked"
NOTE = ("Row predicates are compared by identity; generator tables, link and ampl settings by behaviour of the public properties. Removing a "
        "parameters column while parameters are declared, or the last column of a table, is only required not to succeed wrongly.")


def p_a(row):
    return True


def p_b(row, x=1):
    return x


def m_a(dat):
    return {"x": 1}


def p_c(row):
    return "msg"


PREDS = {"a": (p_a, None, "Boolean"), "b": (p_b, m_a, "Boolean"), "c": (p_c, None, "Error Message"),
         "d": (p_b, m_a, "Error Message")}
NEW_FIELDS = ["new f", "Brand New", "zz9", "key", "qty", "KEY"]
NEW_TABLES = ["fresh_table", "newt", "foods", "a"]


@st.composite
def _edit(draw):
    k = draw(st.sampled_from(["clone", "clone", "restrict", "restrict", "add_table", "add_col", "add_col", "remove",
                              "remove", "rename", "rename", "rename", "cross", "function"]))
    i, j = draw(st.integers(0, 9)), draw(st.integers(0, 9))
    if k in ("restrict",):
        return [k, draw(st.lists(st.booleans(), min_size=6, max_size=6)), draw(st.sampled_from(["set", "list", "tuple"]))]
    if k == "add_table":
        fs = draw(gen.fields(0, 4))
        n = draw(st.integers(0, len(fs)))
        return [k, draw(st.sampled_from(NEW_TABLES)), fs[:n], fs[n:]]
    if k == "add_col":
        return [k, i, draw(st.sampled_from(NEW_FIELDS)), draw(st.sampled_from(["primary key", "data", "data", "bogus"])),
                draw(st.sampled_from(["append", 0, 1, 2, "dflt", 7]))]
    if k in ("remove", "rename"):
        return [k, i, j] + ([draw(st.sampled_from(NEW_FIELDS))] if k == "rename" else [])
    if k == "cross":
        return [k, draw(st.booleans())]
    return [k]


@st.composite
def _case(draw):
    tabs = draw(schema_tables())
    ops = draw(ops_for(tabs, 12))
    preds = {}
    for t, v in tabs.items():
        if v != "*":
            for n in draw(st.lists(st.sampled_from(["p1", "p2", None]), max_size=2, unique=True)):
                preds.setdefault(t, []).append([n, draw(st.sampled_from(sorted(PREDS)))])
    gens = [t for t, v in tabs.items() if v != "*" and not v[0] and t not in preds and draw(st.booleans())]
    return {"tables": tabs, "ops": ops, "cls": draw(st.sampled_from(["T", "P"])), "preds": preds, "gens": gens,
            "links": draw(st.booleans()), "ampl": draw(st.sampled_from(["", "_"])), "use": draw(st.booleans()),
            "edits": draw(st.lists(_edit(), min_size=1, max_size=4)), "after": draw(ops_for(tabs, 2))}


def state(f, T):
    """everything observable that the schema does not hold"""
    preds = {}
    for t in f.all_tables:
        if t not in f.generic_tables:
            d = f.get_row_predicates(t)
            if d:
                preds[t] = {n: (r.predicate, r.predicate_kwargs_maker, r.predicate_failure_response) for n, r in d.items()}
    out = {"preds": preds}
    if isinstance(f, T):
        out["gens"] = sorted(f.generator_tables)
        out["ampl"] = f.ampl_prepend
    return out


def check_links(f, want, ctx):
    """links are only observable on data: a parent row reaches its child, or the constructor refuses"""
    fks = f.foreign_keys

    def pairs(fk):
        m = fk.mapping
        return [tuple(m)] if isinstance(m[0], str) else [tuple(x) for x in m]
    simple = all({y for _, y in pairs(fk)} == set(f.primary_key_fields[fk.foreign_table]) for fk in fks)
    if not simple:
        try:
            f.TicDat(**{fks[0].native_table: []})
        except Exception:
            require(want, "the clone behaves as if links were enabled")
            return
        require(not want, "the clone does not have links enabled")
        return
    for fk in fks:
        nt, ft = fk.native_table, fk.foreign_table
        if nt != ft and f.primary_key_fields[nt] and len(fks) == 1 and len({y for _, y in pairs(fk)}) == len(pairs(fk)):
            mine = dict(pairs(fk))
            n = len(f.primary_key_fields[nt])
            data = {x: 1 for x in f.data_fields[nt]}
            k = len(f.primary_key_fields[ft])
            one = lambda n_: 1 if n_ == 1 else (1,) * n_
            dat = f.TicDat(**{ft: {one(k): {}}, nt: {one(n): data}})
            row = getattr(dat, ft)[one(k)]
            has = hasattr(row, nt)
            require(has == want, "foreign key links %s on the clone", "enabled" if has else "not enabled")
            ctx.label("links checked")
            return


def check(case, ctx):
    import ticdat
    T, P = ticdat.TicDatFactory, ticdat.PanDatFactory
    cls = T if case["cls"] == "T" else P
    f = cls(**copy.deepcopy(case["tables"]))
    m = Model(copy.deepcopy(case["tables"]))
    for op in case["ops"]:
        ok = m.apply(op)
        try:
            call(f, copy.deepcopy(op))
        except Exception:
            require(not ok, "%s refused", op)
    m.preds = {}
    for t, lst in case["preds"].items():
        for n, p in lst:
            f.add_data_row_predicate(t, PREDS[p][0], predicate_name=n, predicate_kwargs_maker=PREDS[p][1],
                                     predicate_failure_response=PREDS[p][2])
            m.preds.setdefault(t, {})[0 if n is None else n] = PREDS[p]
    m.gens, m.ampl, m.links = [], "", False
    if cls is T:
        f.set_generator_tables(case["gens"])
        m.gens = list(case["gens"])
        if case["links"]:
            f.enable_foreign_key_links()
            m.links = True
        f.ampl_prepend = case["ampl"]
        m.ampl = case["ampl"]
    if case["use"]:
        try:
            (f.TicDat if cls is T else f.PanDat)()
        except Exception:
            require(m.links, "empty object refused")  # links and foreign keys not onto a primary key

    def want_state(m_, is_t):
        out = {"preds": {t: d for t, d in m_.preds.items() if d}}
        if is_t:
            out.update(gens=sorted(m_.gens), ampl=m_.ampl)
        return out

    def check_f(f_, m_, what):
        same_view(view_of(f_.schema(include_ancillary_info=True)), m_.view(), what)
        require_eq(state(f_, T), want_state(m_, isinstance(f_, T)), what + ": predicates and settings")
    done = 0
    for e in case["edits"]:
        m2 = copy.deepcopy(m)
        m2.preds = {t: dict(d) for t, d in m.preds.items()}
        ts = sorted(m.tables)
        k = e[0]
        ok = True  # True accept, False refuse, None either
        if k == "clone":
            do = lambda: f.clone()
        elif k == "function":
            calls = []

            def fac(full):
                calls.append(full)
                return type(f).create_from_full_schema(full)
            do = lambda: f.clone(clone_factory=fac)
        elif k == "cross":
            other = P if isinstance(f, T) else T
            if e[1]:
                do = lambda: f.clone(clone_factory=other, convert_dat=lambda dat: dat)
            else:
                do = lambda: f.clone(clone_factory=other)
                m2.preds = {t: {n: p for n, p in d.items() if not p[1]} for t, d in m2.preds.items()}
            m2.gens, m2.ampl, m2.links = [], "", False
        elif k == "restrict":
            keep = [t for t, b in zip(ts, e[1]) if b]
            if not keep:
                ok = None  # an empty restriction is refused; never silently everything
            c = {"set": set, "list": list, "tuple": tuple}[e[2]](keep)
            do = lambda: f.clone(table_restrictions=c)
            m2.tables = {t: v for t, v in m2.tables.items() if t in keep}
            m2.fks = {x for x in m2.fks if x[0] in keep and x[1] in keep}
            for d in (m2.types, m2.defaults, m2.tips, m2.preds):
                for t in list(d):
                    if t not in keep:
                        del d[t]
            m2.gens = [t for t in m2.gens if t in keep]
            if "parameters" not in keep:
                m2.params = {}
        elif k == "add_table":
            t, pk, df = e[1:]
            ok = t not in [x for x in m.tables] and bool(pk or df) and t.lower() not in [x.lower() for x in m.tables]
            do = lambda: f.clone_add_a_table(t, pk, df)
            m2.tables[t] = [list(pk), list(df)]
            m2.defaults[t] = {x: 0 for x in df}
        else:
            t = ts[e[1] % len(ts)]
            fs = m.fields(t)
            if m.tables[t] == "*":
                ok, fs = False, ["x"]
            if k == "add_col":
                nf, ty, pos = e[2:]
                lst = None
                if ok:
                    ok = ty != "bogus" and nf.lower() not in [x.lower() for x in fs]
                    lst = m2.tables[t][0 if ty == "primary key" else 1]
                    ok = ok and (pos in ("append", "dflt") or 0 <= pos <= len(lst))
                    if t in m.gens and ty == "primary key":
                        ok = False
                    if t == "parameters" and m.params:
                        ok = None  # would leave no room for the parameters
                do = lambda: f.clone_add_a_column(t, nf, ty) if pos == "dflt" else f.clone_add_a_column(t, nf, ty, pos)
                if ok:
                    lst.insert(len(lst) if pos in ("append", "dflt") else pos, nf)
                    if ty == "data":
                        m2.defaults.setdefault(t, {})[nf] = 0
            else:
                fld = fs[e[2] % len(fs)]
                if k == "remove":
                    do = lambda: f.clone_remove_a_column(t, fld)
                    if ok:
                        if len(fs) == 1:
                            ok = False
                        elif t == "parameters" and m.params:
                            ok = None
                        else:
                            for lst in m2.tables[t]:
                                if fld in lst:
                                    lst.remove(fld)
                            for d in (m2.types, m2.defaults, m2.tips):
                                d.get(t, {}).pop(fld, None)
                            m2.fks = {x for x in m2.fks if not any((x[0], n) == (t, fld) or (x[1], g) == (t, fld)
                                                                  for n, g in x[2])}
                else:
                    nf = e[3]
                    do = lambda: f.clone_rename_a_column(t, fld, nf)
                    if ok:
                        ok = nf not in fs
                        if nf.lower() in [x.lower() for x in fs if x != fld]:
                            ok = False
                    if ok:
                        m2.tables[t] = [[nf if x == fld else x for x in lst] for lst in m2.tables[t]]
                        for d in (m2.types, m2.defaults, m2.tips):
                            if t in d:
                                d[t] = {(nf if x == fld else x): v for x, v in d[t].items()}
                        m2.fks = {(a, b, frozenset((nf if (a, n) == (t, fld) else n, nf if (b, g) == (t, fld) else g)
                                                   for n, g in mp)) for a, b, mp in m2.fks}
        if k not in ("cross",) and not isinstance(f, T):
            m2.gens, m2.ampl, m2.links = [], "", False
        try:
            f2 = do()
        except Exception as ex:
            require(ok is not True, "%s refused: %r", e, ex)
            check_f(f, m, "original after a refused %s" % k)
            ctx.label("refused " + k)
            continue
        require(ok is not False, "%s accepted", e)
        if ok is None:
            if k == "restrict":
                require(not f2.all_tables, "clone restricted to no tables has tables %s", sorted(f2.all_tables))
            continue
        check_f(f2, m2, "after " + k)
        check_f(f, m, "original after " + k)
        require(f2 is not f, "same object")
        require_eq(isinstance(f2, T), isinstance(f, T) != (k == "cross"), "class of the clone")
        if isinstance(f2, T) and m2.fks:
            # a throwaway twin, so that the clone itself stays unused
            check_links(f2.clone(), m2.links, ctx)
        # independence both ways, and the clone is editable whatever the original went through
        twin, m3 = f2.clone(), copy.deepcopy(m2)
        m3.preds = {t: dict(d) for t, d in m2.preds.items()}
        for op in case["after"]:
            if (op[0] in ("type", "default", "tip", "clear_type") and op[1] not in m3.tables) or \
                    op[0] == "defaults" and any(t not in m3.tables or x not in m3.fields(t)
                                                for t, d in op[1].items() for x in d):
                continue
            acc = m3.apply(op)
            try:
                call(twin, copy.deepcopy(op))
            except Exception as ex:
                require(not acc, "clone refused %s: %r", op, ex)
        for t in m3.tables:
            if m3.tables[t] != "*" and t not in m3.gens:
                twin.add_data_row_predicate(t, p_a, predicate_name="extra")
                m3.preds.setdefault(t, {})["extra"] = PREDS["a"]
                break
        check_f(twin, m3, "edited twin")
        check_f(f2, m2, "clone after editing its own clone")
        done += 1
        ctx.label("edit " + k)
        f, m = f2, m2
    if done and (m.fks or m.types or m.tips or m.preds or m.params):
        ctx.nontrivial("edited a factory with ancillary info")


FACETS = [Facet("edits", check, _case, quick=5000,
                rule="at least one edit accepted on a factory with foreign keys, types, tooltips, predicates or parameters")]
