import datetime
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting

TECHNIQUE = "reference model: naive nested-loop join over random foreign key graphs and data, TicDat and PanDat compared with it"
NOTE = ("Simple, compound, permuted, non-key, self-referencing, circular and overlapping-name mappings; int, float, string, mixed, datetime and "
        "null cells; odd indexes and extra columns for DataFrames. Two native fields mapped onto one foreign field are not generated.")
POOL = ["foods", "sites", "arcs", "myTable", "zeta"]
FPOOL = ["key", "qty", "from", "to", "x", "y1", "code", "z z"]
DT = [datetime.datetime(2020, 1, d) for d in (1, 2, 3)]
KINDS = {"int": st.integers(0, 3), "str": st.sampled_from(["a", "b", "c", "1"]), "float": st.sampled_from([0.5, 1.0, 2.0, 3.5]),
         "num": st.sampled_from([0, 1, 2, 1.0, 2.5]), "mixed": st.sampled_from([0, 1, 2, "a", "b", "1", "2"]),
         "dt": st.sampled_from(DT), "wild": st.sampled_from([0, 1, "a", "1", DT[0], DT[1], 2.5])}


@st.composite
def spec_and_data(draw, keyless=True, nulls=True, dup_pk=False, kinds=sorted(KINDS)):
    # few field names, so that native and foreign tables share them
    tabs = draw(gen.tables(1, 4, max_pk=3, max_df=3, pool=POOL, fpool=draw(st.sampled_from([FPOOL, FPOOL[:6]])),
                           keyless=keyless))
    fks = draw(gen.fk_list(tabs, n_max=5, acyclic=draw(st.booleans()), allow_self=True))
    names = list(tabs)
    if not fks or draw(st.booleans()):
        nt, ft = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        nfs, ffs = sum(tabs[nt], []), list(tabs[ft][0] or tabs[ft][1])
        m = [[a, b] for a, b in zip(draw(st.permutations(nfs)), draw(st.permutations(ffs)))]
        if m and not any(x[:2] == [nt, ft] and sorted(x[2]) == sorted(m) for x in fks):
            fks.append([nt, ft, m])
    spec = {"tables": tabs, "fks": fks}
    one_kind = draw(st.sampled_from(kinds))
    cells = {}
    for t, v in tabs.items():
        for f in v[0] + v[1]:
            k = one_kind if draw(st.integers(0, 3)) else draw(st.sampled_from(kinds))
            cells[t, f] = KINDS[k]
            if nulls and f in v[1] and draw(st.integers(0, 5)) == 0:
                cells[t, f] = st.one_of(KINDS[k], st.none())
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 7, unique_pk=not dup_pk))
    return spec, data


def orphans(spec, data, fk):
    """indices of the native rows without a match"""
    nt, ft, m = fk
    nfs, ffs = sum(spec["tables"][nt], []), sum(spec["tables"][ft], [])
    ni, fi = [nfs.index(a) for a, _ in m], [ffs.index(b) for _, b in m]
    have = [[gen.norm(r[j]) for j in fi] for r in data[ft]]
    return [i for i, r in enumerate(data[nt]) if [gen.norm(r[j]) for j in ni] not in have]


def fkey(nt, ft, mapping):
    m = [tuple(mapping)] if isinstance(mapping[0], str) else [tuple(x) for x in mapping]
    return nt, ft, frozenset(m)


def labels(spec, ctx):
    for nt, ft, m in spec["fks"]:
        if len(m) > 1:
            ctx.label("compound")
        if nt == ft:
            ctx.label("self reference")
        if {b for _, b in m} != set(spec["tables"][ft][0]):
            ctx.label("not onto the key")
        if {a for a, _ in m} & {b for _, b in m} and any(a != b for a, b in m):
            ctx.label("overlapping names")


def td_fails(spec, res, low=False):
    """{fk: (values as multiset by field, set of native row ids)}"""
    out = {}
    with interpreting("foreign key failures"):
        for k, v in res.items():
            key = fkey(k[0], k[1], k[2])
            fields = [k[2][0]] if isinstance(k[2][0], str) else [x[0] for x in k[2]]
            values, pks = v if low else (v.native_values, v.native_pks)
            vals = {frozenset((f, gen.norm(x)) for f, x in zip(fields, val if len(fields) > 1 else [val]))
                    for val in values}
            require(len(vals) == len(values), "native values repeated: %s", values)
            require(len(set(pks)) == len(pks), "native keys repeated: %s", pks)
            require(key not in out, "foreign key reported twice")
            out[key] = (vals, set(pks))
    return out


def td_id(spec, t, i, row):
    return gen.pk_of(spec, t, row) if spec["tables"][t][0] else i


def want_td(spec, data):
    out = {}
    for nt, ft, m in spec["fks"]:
        bad = orphans(spec, data, (nt, ft, m))
        if bad:
            nfs = sum(spec["tables"][nt], [])
            vals = {frozenset((a, gen.norm(data[nt][i][nfs.index(a)])) for a, _ in m) for i in bad}
            out[nt, ft, frozenset(map(tuple, m))] = (vals, {td_id(spec, nt, i, data[nt][i]) for i in bad})
    return out


@st.composite
def _td_case(draw):
    spec, data = draw(spec_and_data())
    return {"spec": spec, "data": data, "max": draw(st.integers(1, 6)), "native": draw(st.booleans())}


def check_td(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    dat = gen.make_td(tdf, spec, data)
    want = want_td(spec, data)
    res = tdf.find_foreign_key_failures(dat)
    got = td_fails(spec, res)
    require_eq(got, want, "foreign key failures")
    cards = {fkey(*fk[:3]): fk.cardinality for fk in tdf.foreign_keys}
    for k in res:
        require(k in tdf.foreign_keys, "key of the result is not one of the factory's foreign keys: %s", k)
    low = tdf.find_foreign_key_failures(dat, verbosity="Low")
    for k in low:
        require(len(k) == 3 and not hasattr(k, "cardinality"), "low verbosity key %s", k)
    require_eq(td_fails(spec, low, low=True), want, "low verbosity failures")
    total = sum(len(v[1]) for v in want.values())
    cap = case["max"]
    some = td_fails(spec, tdf.find_foreign_key_failures(dat, max_failures=cap))
    n = sum(len(v[1]) for v in some.values())
    require(min(1, total) <= n <= cap, "max_failures=%s reported %s of %s failures", cap, n, total)
    if total < cap:
        require_eq(some, want, "failures below max_failures")
    for k, (vals, pks) in some.items():
        require(k in want and vals <= want[k][0] and pks <= want[k][1] and vals and pks,
                "max_failures reported something that is no failure: %s %s", k, (vals, pks))
    labels(spec, ctx)
    if want:
        ctx.nontrivial("failures")
    elif any(data[nt] for nt, _, _ in spec["fks"]):
        ctx.nontrivial("clean")


@st.composite
def _pd_case(draw):
    spec, data = draw(spec_and_data(dup_pk=draw(st.booleans())))
    return {"spec": spec, "data": data, "max": draw(st.integers(1, 6)),
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans())}


def odd_frames(spec, pdf, dat, index, extra):
    for t in spec["tables"]:
        df = getattr(dat, t)
        n = len(df)
        df.index = {"range": list(range(n)), "reversed": list(range(n))[::-1], "same": [7] * n,
                    "str": ["r%s" % (i % 3) for i in range(n)]}[index]
        if extra:
            df["extra"] = range(n)
            df["_0_"] = "x"


def check_pd(case, ctx):
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    odd_frames(spec, pdf, dat, case["index"], case["extra"])
    want = {}
    for fk in spec["fks"]:
        bad = orphans(spec, data, fk)
        if bad:
            want[fk[0], fk[1], frozenset(map(tuple, fk[2]))] = bad
    total = sum(map(len, want.values()))

    def read(res, as_table):
        out = {}
        with interpreting("foreign key failures"):
            for k, v in res.items():
                key = fkey(*k[:3])
                require(key not in out, "foreign key reported twice")
                df = getattr(dat, key[0])
                if as_table:
                    cols = sum(spec["tables"][key[0]], [])
                    out[key] = gen.norm_rows(list(r) for r in v[cols].itertuples(index=False, name=None))
                else:
                    v = list(v)
                    require(len(v) == len(df), "%s flags for %s rows", len(v), len(df))
                    out[key] = [i for i, b in enumerate(v) if b]
        return out
    rows_of = lambda w: {k: gen.norm_rows(data[k[0]][i] for i in v) for k, v in w.items()}
    require_eq(read(pdf.find_foreign_key_failures(dat, as_table=False), False), want, "boolean failures")
    res = pdf.find_foreign_key_failures(dat)
    require_eq(read(res, True), rows_of(want), "failing rows")
    for k in res:
        require(k in pdf.foreign_keys, "key of the result is not one of the factory's foreign keys: %s", k)
    low = pdf.find_foreign_key_failures(dat, verbosity="Low")
    for k in low:
        require(len(k) == 3 and not hasattr(k, "cardinality"), "low verbosity key %s", k)
    require_eq(read(low, True), rows_of(want), "low verbosity failures")
    cap = case["max"]
    some = read(pdf.find_foreign_key_failures(dat, max_failures=cap, as_table=False), False)
    n = sum(map(len, some.values()))
    require(min(1, total) <= n <= cap, "max_failures=%s reported %s of %s failures", cap, n, total)
    if total < cap:
        require_eq(some, want, "failures below max_failures")
    for k, v in some.items():
        require(k in want and v and set(v) <= set(want[k]), "max_failures reported something that is no failure: %s %s", k, v)
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.pd_rows(spec, dat, t)), gen.norm_rows(data[t]), "table %s after the check" % t)
    labels(spec, ctx)
    if want:
        ctx.nontrivial("failures")
    elif any(data[nt] for nt, _, _ in spec["fks"]):
        ctx.nontrivial("clean")


FACETS = [
    Facet("ticdat", check_td, _td_case, quick=8000, rule="failures exist, or native rows exist and none fails"),
    Facet("pandat", check_pd, _pd_case, quick=2400, rule="failures exist, or native rows exist and none fails"),
]
