from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = "reference model: set-based closure of random foreign key graphs; links compared, by object identity, with a naive join"
NOTE = ("Foreign keys onto complete primary keys, simple, compound (reordered), parallel, circular and self-referencing, for implied keys also together with keys onto other fields. Link names are only "
        "checked for a single key between two tables; otherwise some attribute must hold exactly the link.")
POOL = ["foods", "sites", "arcs", "myTable", "zeta", "flows", "q"]


@st.composite
def graph(draw, lo=3, hi=5, self_ok=True, keyless=True, other=False):
    tabs = draw(gen.tables(lo, hi, max_pk=draw(st.integers(1, 3)), max_df=4, pool=POOL, keyless=keyless))
    fks = draw(gen.fk_list(tabs, n_max=8, acyclic=draw(st.booleans()), full_pk=True,
                           allow_self=self_ok and draw(st.booleans())))
    names = list(tabs)
    for i in range(draw(st.integers(0, len(names) - 1))):  # chains through primary keys
        nt, ft = names[i], names[i + 1]
        nfs = draw(st.permutations(tabs[nt][0] if len(tabs[nt][0]) >= len(tabs[ft][0]) and i else sum(tabs[nt], [])))
        ffs = draw(st.permutations(tabs[ft][0]))
        m = [[a, b] for a, b in zip(nfs, ffs)]
        if ffs and len(nfs) >= len(ffs) and not any(x[:2] == [nt, ft] and sorted(x[2]) == sorted(m) for x in fks):
            fks.append([nt, ft, m])
    if other:  # also keys onto other fields than the primary key
        fks += [fk for fk in draw(gen.fk_list(tabs, n_max=3, acyclic=draw(st.booleans()), allow_self=self_ok and draw(st.booleans())))
                if not any(x[:2] == fk[:2] and sorted(x[2]) == sorted(fk[2]) for x in fks)]
    return {"tables": tabs, "fks": fks}


def pairs(fk):
    with interpreting("foreign key"):
        m = fk.mapping
        return frozenset([(m.native_field, m.foreign_field)]) if hasattr(m, "native_field") else \
            frozenset((x.native_field, x.foreign_field) for x in m)


def fkset(f):
    out = [(fk.native_table, fk.foreign_table, pairs(fk)) for fk in f.foreign_keys]
    require(len(out) == len(set(out)), "a foreign key is listed twice: %s", f.foreign_keys)
    return set(out)


def card(spec, nt, ft, m):
    one = lambda t, fs: "one" if spec["tables"][t][0] and set(spec["tables"][t][0]) <= fs else "many"
    return one(nt, {a for a, _ in m}) + "-to-" + one(ft, {b for _, b in m})


def check_cards(f, spec):
    for fk in f.foreign_keys:
        require_eq(fk.cardinality, card(spec, fk.native_table, fk.foreign_table, pairs(fk)),
                   "cardinality of %s" % (fk,))


def closure(spec):
    fks = {(nt, ft, frozenset(map(tuple, m))) for nt, ft, m in spec["fks"]}
    while True:
        new = set()
        for nt, b, m1 in fks:
            for b2, ft, m2 in fks:
                if b == b2:
                    for comp in compose(m1, m2):
                        if comp and {y for _, y in comp} == set(spec["tables"][ft][0]):
                            new.add((nt, ft, comp))
        if new <= fks:
            return fks
        fks |= new


def compose(m1, m2):
    """m1 native->bridge and m2 bridge->foreign both have distinct fields on each side"""
    d = {b: n for n, b in m1}
    return [frozenset((d[b], f) for b, f in m2 if b in d)]


def cascade(spec, data):
    """drop orphans until nothing changes"""
    data = {t: list(r) for t, r in data.items()}
    while True:
        changed = False
        for nt, ft, m in spec["fks"]:
            nfs, ffs = sum(spec["tables"][nt], []), sum(spec["tables"][ft], [])
            ok = {tuple(r[ffs.index(b)] for _, b in m) for r in data[ft]}
            keep = [r for r in data[nt] if tuple(r[nfs.index(a)] for a, _ in m) in ok]
            if len(keep) != len(data[nt]):
                data[nt], changed = keep, True
        if not changed:
            return data


@st.composite
def _implied_case(draw):
    spec = draw(graph(other=draw(st.integers(0, 2)) == 1))
    cells = {(t, f): st.integers(0, 3) for t, v in spec["tables"].items() for f in v[0] + v[1]}
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 6))
    if draw(st.booleans()):
        data = cascade(spec, draw(gen.adopt(spec, data)))
    return {"spec": spec, "data": data, "cls": draw(st.sampled_from(["T", "P"]))}


def check_implied(case, ctx):
    spec = case["spec"]
    base = gen.tdf_of(spec)
    check_cards(base, spec)
    check_cards(gen.pdf_of(spec), spec)
    require_eq(fkset(base), {(nt, ft, frozenset(map(tuple, m))) for nt, ft, m in spec["fks"]}, "declared keys")
    f = base.clone()
    f.add_implied_foreign_keys()
    want = closure(spec)
    require_eq(fkset(f), want, "keys after add_implied_foreign_keys")
    check_cards(f, spec)
    f.add_implied_foreign_keys()
    require_eq(fkset(f), want, "keys after a second add_implied_foreign_keys")
    r = []
    for g in (base, f):
        r.append(bool(g.find_foreign_key_failures(gen.make_td(g, spec, case["data"]))))
    require(r[0] == r[1], "implied foreign keys changed whether there are failures from %s to %s", *r)
    if len(want) > len(spec["fks"]):
        ctx.nontrivial("implied keys")
        if not r[0] and any(case["data"][nt] for nt, _, _ in spec["fks"]):
            ctx.label("clean data")


@st.composite
def _link_case(draw):
    spec = draw(graph(keyless=draw(st.booleans())))
    kind = draw(st.sampled_from(["int", "str", "mixed"]))
    nulls = draw(st.integers(0, 4)) == 0
    small = {"int": st.integers(0, 3), "str": st.sampled_from(["a", "b", "c"]),
             "mixed": st.one_of(st.integers(0, 2), st.sampled_from(["a", "1"]))}[kind]
    data = draw(gen.data_for(spec, lambda t, f: st.one_of(small, st.none()) if nulls and f in spec["tables"][t][1]
                             else small, 0, 8))
    return {"spec": spec, "data": data, "copy": draw(st.booleans()), "freeze": draw(st.booleans()),
            "implied": draw(st.booleans())}


def check_links(case, ctx):
    spec, data = case["spec"], case["data"]
    tabs = spec["tables"]
    fks = [(nt, ft, frozenset(map(tuple, m))) for nt, ft, m in spec["fks"]]
    tdf = gen.tdf_of(spec)
    if case["implied"]:
        tdf.add_implied_foreign_keys()
        fks = sorted(closure(spec), key=lambda x: (x[0], x[1], sorted(x[2])))
    by = {}
    for nt, ft, m in fks:
        by.setdefault((nt, ft), []).append(frozenset(a for a, _ in m))
    if any(len(set(v)) < len(v) for v in by.values()):
        ctx.known("same native fields paired twice")
    tdf.enable_foreign_key_links()
    dat = gen.make_td(tdf, spec, data)
    if not any(data.values()):
        return
    if case["copy"]:
        dat = tdf.copy_tic_dat(dat, freeze_it=case["freeze"])
    elif case["freeze"]:
        dat = tdf.freeze_me(dat)
    d = gen.diff_content(data, gen.td_content(spec, dat))
    require(d is None, "linking changed the data: %s", d)
    got_child = False
    for nt, ft, m in fks:
        if not tabs[nt][0]:
            continue
        nfs, ffs = tabs[nt][0] + tabs[nt][1], tabs[ft][0]
        to = {b: a for a, b in m}
        native_fields = {a for a, _ in m}
        one = set(tabs[nt][0]) <= native_fields
        rest = [i for i, f in enumerate(tabs[nt][0]) if f not in native_fields]
        want = {}
        ntbl, ftbl = getattr(dat, nt), getattr(dat, ft)
        for r in data[nt]:
            ref = tuple(r[nfs.index(to[b])] for b in ffs)
            ref = ref[0] if len(ref) == 1 else ref
            k = tuple(r[i] for i in rest)
            want.setdefault(ref, {})[k[0] if len(k) == 1 else k] = ntbl[gen.pk_of(spec, nt, r)]
        names = {nt}
        if len(by[nt, ft]) > 1:
            names = {a for row in ftbl.values() for a in vars(row) if a.startswith(nt)}

        def holds(a):
            for k, row in ftbl.items():
                w = want.get(k, {})
                if one:
                    if hasattr(row, a) != bool(w):
                        return False, "parent %r %s a child" % (k, "lacks" if w else "wrongly has")
                    if w and getattr(row, a) is not list(w.values())[0]:
                        return False, "parent %r does not lead to its child row object" % (k,)
                else:
                    if not hasattr(row, a):
                        return False, "parent %r has no link" % (k,)
                    g = getattr(row, a)
                    with interpreting("link"):
                        if set(g.keys()) != set(w) or len(g) != len(w) or any(g[x] is not w[x] for x in w):
                            return False, "link of parent %r has keys %s, expected %s" % (k, list(g.keys()), list(w))
            return True, None
        if ftbl and any(want.get(k) for k in ftbl):
            got_child = True
            res = [holds(a) for a in sorted(names)]
            require(any(x[0] for x in res), "links from %s to %s over %s: %s", ft, nt, sorted(m), [x[1] for x in res])
            ctx.label("one-to-one" if one else "one-to-many")
            if len(m) > 1:
                ctx.label("compound")
            if len(by[nt, ft]) > 1:
                ctx.label("parallel keys")
            if nt == ft:
                ctx.label("self reference")
        elif ftbl and len(by[nt, ft]) == 1:
            ok, why = holds(nt)
            require(ok, "links from %s to %s over %s: %s", ft, nt, sorted(m), why)
    if got_child:
        ctx.nontrivial("a parent with children")


FACETS = [
    Facet("implied", check_implied, _implied_case, quick=5000, rule="some implied key exists"),
    Facet("links", check_links, _link_case, quick=6000, rule="some parent has linked children"),
]
