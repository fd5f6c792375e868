from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail
from .p08 import spec_and_data, orphans, odd_frames

TECHNIQUE = "reference model: naive orphan fixpoint over random foreign key graphs and data; long cascade chains enumerated"
NOTE = "Keyed and keyless tables, cyclic and self-referencing graphs, permuted and non-key mappings. Chains up to 3000 (TicDat) and 60 (PanDat) levels."


def one_pass(spec, data):
    bad = {t: set() for t in spec["tables"]}
    for fk in spec["fks"]:
        bad[fk[0]] |= set(orphans(spec, data, fk))
    return {t: [r for i, r in enumerate(rows) if i not in bad[t]] for t, rows in data.items()}


def fixpoint(spec, data):
    rounds = 0
    while True:
        new = one_pass(spec, data)
        if new == data:
            return data, rounds
        data, rounds = new, rounds + 1


@st.composite
def _case(draw):
    spec, data = draw(spec_and_data(kinds=["int", "int", "str", "mixed", "num"]))
    # chains through the tables make cascades likely
    names = list(spec["tables"])
    for i in range(len(names) - 1):
        if draw(st.integers(0, 2)):
            nt, ft = names[i], names[i + 1]
            ffs = spec["tables"][ft][0] or spec["tables"][ft][1]
            nfs = sum(spec["tables"][nt], [])
            m = [[a, b] for a, b in zip(nfs, ffs)]
            if not any(x[:2] == [nt, ft] and sorted(x[2]) == sorted(m) for x in spec["fks"]):
                spec["fks"].append([nt, ft, m])
    if draw(st.integers(0, 3)) == 2:  # longer tables
        data = {t: rows * 3 if not spec["tables"][t][0] else rows for t, rows in data.items()}
    return {"spec": spec, "data": data, "prop": draw(st.booleans()),
            "index": draw(st.sampled_from(["range", "reversed", "same", "str"])), "extra": draw(st.booleans())}


def check_td(case, ctx):
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    dat = gen.make_td(tdf, spec, data)
    want, rounds = fixpoint(spec, data)
    if not case["prop"]:
        want = one_pass(spec, data)
    rows = {t: {id(r) for r in (getattr(dat, t).values() if v[0] else getattr(dat, t))}
            for t, v in spec["tables"].items()}
    res = tdf.remove_foreign_key_failures(dat, propagate=False) if not case["prop"] else \
        tdf.remove_foreign_key_failures(dat)
    require(res is dat, "remove_foreign_key_failures returned another object")
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.td_rows(spec, dat, t)), gen.norm_rows(want[t]), "rows of %s left" % t)
        for r in (getattr(dat, t).values() if spec["tables"][t][0] else getattr(dat, t)):
            require(id(r) in rows[t], "a surviving row of %s was replaced", t)
    if case["prop"]:
        require(not tdf.find_foreign_key_failures(dat), "failures remain after the removal")
    if rounds:
        ctx.nontrivial("rows removed")
        if rounds > 1:
            ctx.label("cascade")
    if any(len(want[t]) for t in want) and rounds:
        ctx.label("some rows kept")


def check_pd(case, ctx):
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    odd_frames(spec, pdf, dat, case["index"], case["extra"])
    want, rounds = fixpoint(spec, data)
    res = pdf.remove_foreign_key_failures(dat)
    require(res is dat, "remove_foreign_key_failures returned another object")
    for t in spec["tables"]:
        require_eq(gen.norm_rows(gen.pd_rows(spec, dat, t)), gen.norm_rows(want[t]), "rows of %s left" % t)
        if case["extra"]:
            require("extra" in getattr(dat, t).columns, "extra column lost")
    require(not pdf.find_foreign_key_failures(dat), "failures remain after the removal")
    if rounds:
        ctx.nontrivial("rows removed")
        if rounds > 1:
            ctx.label("cascade")


def chain_cases():
    out = []
    for n in (1, 2, 7, 400, 1500, 3000):
        for broken in (True, False):
            out.append({"cls": "T", "n": n, "broken": broken, "keyed": True})
    out.append({"cls": "T", "n": 300, "broken": True, "keyed": False})
    for n in (1, 2, 7, 60):
        for broken in (True, False):
            out.append({"cls": "P", "n": n, "broken": broken, "keyed": True})
    return out


def check_chain(case, ctx):
    """employees whose manager chain does, or does not, end in a row of roots"""
    n = case["n"]
    keyed = case["keyed"]
    spec = {"tables": {"emp": [["id"], ["boss"]] if keyed else [[], ["id", "boss"]]},
            "fks": [["emp", "emp", [["boss", "id"]]]]}
    rows = [[i, i - 1] for i in range(n)]
    if not case["broken"]:
        rows[0][1] = 0
    rows.append([10 * n + 5, 10 * n + 5])
    f = gen.tdf_of(spec) if case["cls"] == "T" else gen.pdf_of(spec)
    dat = (gen.make_td if case["cls"] == "T" else gen.make_pd)(f, spec, {"emp": rows})
    f.remove_foreign_key_failures(dat)
    got = (gen.td_rows if case["cls"] == "T" else gen.pd_rows)(spec, dat, "emp")
    require_eq(gen.norm_rows(got), gen.norm_rows(rows[-1:] if case["broken"] else rows), "rows left of the chain")
    ctx.nontrivial("chain")


FACETS = [
    Facet("chains", check_chain, cases=chain_cases, rule="every case"),
    Facet("ticdat", check_td, _case, quick=6000, rule="some row is an orphan"),
    Facet("pandat", check_pd, _case, quick=1200, rule="some row is an orphan"),
]
