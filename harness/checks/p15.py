from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p07 import graph, closure, card
from .p08 import odd_frames, orphans
from .p09 import fixpoint
from .p10 import native

TECHNIQUE = ("reference model of the renaming (entity tables and references computed by set-based closure of random foreign key graphs) and inversion: "
             "applying renamings backwards must give the original data")
NOTE = ("Schemas where a field refers to two different entity tables, or where the renaming cannot keep a declared key onto non-key fields consistent, "
        "may be refused; everything else must succeed. Up to 60 entity tables competing for the same prefix.")
KINDS = {"int": st.integers(-1, 4), "str": st.sampled_from(["", "a", "b", "c", "F1", "T2", "é"]),
         "float": st.sampled_from([0.5, 1.0, 2.5, 0.0]), "mixed": st.sampled_from([0, 1, "", 2, "a", "b", "F1"])}
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


@st.composite
def _case(draw):
    spec = draw(graph(1, 4))
    if draw(st.integers(0, 4)) == 0:
        spec["fks"] += [fk for fk in draw(gen.fk_list(spec["tables"], n_max=2, acyclic=True)) if not any(
            x[:2] == fk[:2] and sorted(x[2]) == sorted(fk[2]) for x in spec["fks"])]
    kind = KINDS[draw(st.sampled_from(sorted(KINDS)))]
    cells = {(t, f): kind if draw(st.integers(0, 4)) else KINDS[draw(st.sampled_from(sorted(KINDS)))]
             for t, v in spec["tables"].items() for f in v[0] + v[1]}
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], draw(st.integers(0, 2)), 6))
    broken = draw(st.integers(0, 9)) == 7
    if not broken:
        data = fixpoint(spec, draw(gen.adopt(spec, data)))[0]
    wild = draw(st.integers(0, 4)) == 3  # arguments that may be refused
    single = [t for t, v in spec["tables"].items() if len(v[0]) == 1]
    if not wild:
        single = sorted(entities(spec, closure(spec)))
    prep = {}
    for t in single:
        if draw(st.integers(0, 3)) == 0:
            p = draw(st.sampled_from(["P", "F", "S", "Q", "ABC", "F", "A"]))
            if wild or p not in prep.values():
                prep[t] = p
    skip = [t for t in single if draw(st.integers(0, 4)) == 0 and t not in prep]
    if not wild:
        pass
    elif draw(st.integers(0, 2)) == 0:
        prep[draw(st.sampled_from(list(spec["tables"]) + ["nope"]))] = draw(st.sampled_from(["p", "PI", "P1", "I", "W"]))
    elif draw(st.integers(0, 2)) == 0:
        skip.append(draw(st.sampled_from(list(spec["tables"]) + ["nope"])))
    return {"spec": spec, "data": data, "prep": prep, "skip": sorted(set(skip)), "freeze": draw(st.booleans()),
            "index": draw(st.sampled_from(["range", "reversed", "str"])), "extra": draw(st.booleans()),
            "generic": draw(st.sampled_from([None, None, None, [[], []], [["c"], []], [["c", "d"], [[1, "F1"], [2, "y"]]]]))}


def entities(spec, fks):
    out = set()
    for t, (pks, _) in spec["tables"].items():
        if len(pks) == 1 and not any(nt == t and card(spec, nt, ft, m) == "one-to-one" for nt, ft, m in fks):
            out.add(t)
    return out


def plan(spec, prep, skip):
    """(entity tables, {(t, f): set of entity tables its values name}, whether arguments are invalid)"""
    fks = closure(spec)
    ents = entities(spec, fks)
    bad = bool(set(prep) & set(skip)) or not set(skip) <= ents or not set(prep) <= ents - set(skip) or \
        len(set(prep.values())) < len(prep) or \
        any(not set(v) <= set(UPPER) or v.endswith("I") for v in prep.values())
    ents -= set(skip)
    target = {}
    for t in ents:
        target.setdefault((t, spec["tables"][t][0][0]), set()).add(t)
    for nt, ft, m in fks:
        if ft in ents:
            for a, b in m:
                if [b] == spec["tables"][ft][0]:
                    target.setdefault((nt, a), set()).add(ft)
    return ents, target, bad


def check(case, ctx, cls):
    import pandas as pd
    from ticdat.utils import TicDatError
    spec, data, prep, skip = case["spec"], case["data"], case["prep"], case["skip"]
    gt = case.get("generic")
    full = dict(spec, tables=dict(spec["tables"], gen_t="*")) if gt else spec
    f = gen.tdf_of(full) if cls == "T" else gen.pdf_of(full)
    if cls == "T":
        dat = gen.make_td(f, spec, data)
    else:
        dat = gen.make_pd(f, spec, data)
        odd_frames(spec, f, dat, case["index"], case["extra"])
        data = {t: [[native(c) for c in r] for r in gen.pd_rows(spec, dat, t)] for t in data}
    if gt:
        dat.gen_t = pd.DataFrame(gt[1], columns=gt[0])
    content = gen.td_content if cls == "T" else gen.pd_content
    ents, target, bad = plan(spec, prep, skip)
    bad = bad or any(orphans(spec, data, fk) for fk in spec["fks"])
    ambiguous = any(len(v) > 1 for v in target.values())
    kw = {}
    if prep:
        kw["table_prepends"] = prep
    if skip:
        kw["skip_tables"] = skip
    if cls == "T" and case["freeze"]:
        kw["freeze_it"] = True
    err = None
    try:
        res = f.obfusimplify(dat, **kw)
    except TicDatError as e:
        err = e
    except AssertionError as e:
        err = e
    except KeyError as e:
        if not ambiguous:
            raise
        err = e
    require_eq(gen.diff_content(data, content(spec, dat)), None, "the original after obfusimplify")
    if bad:
        require(err is not None, "invalid arguments or foreign key failures were not refused: %s", kw)
        ctx.nontrivial("refused")
        return
    if err is None:
        with interpreting("obfusimplify result"):
            copy, ren = res.copy, {k: tuple(v) for k, v in res.renamings.items()}
        require(copy is not dat, "copy is the original")
        require((f.good_tic_dat_object if cls == "T" else f.good_pan_dat_object)(copy), "the copy is no good object")
        if gt:
            with interpreting("generic table"):
                seen = [[list(x.gen_t.columns), gen.norm_rows(x.gen_t.values.tolist())] for x in (copy, dat)]
                require_eq(seen, [[gt[0], gen.norm_rows(gt[1])]] * 2, "generic table of the copy and of the original")
                require(copy.gen_t is not dat.gen_t, "the copy shares the generic table of the original")
            ctx.label("generic table")
    keys = {(t, gen.norm(r[0])) for t in ents for r in data[t]}
    if err is None:
        require_eq({(t, gen.norm(k)) for t, k in ren.values()}, keys, "what is renamed")
        require_eq(len(ren), len(keys), "number of renamings")
        pre = {}
        for new, (t, k) in ren.items():
            head = new.rstrip("0123456789")
            require(isinstance(new, str) and head and head != new and set(head) <= set(UPPER) and not head.endswith("I"),
                    "new name %r is not capital letters followed by a number", new)
            require(pre.setdefault(t, head) == head, "names of %s have different prefixes", t)
            if t in prep:
                require_eq(head, prep[t], "prefix of %s" % t)
        require(len(set(pre.values())) == len(pre), "tables share a prefix: %s", pre)
        back = {new: k for new, (t, k) in ren.items()}
        fwd = {(t, gen.norm(k)): new for new, (t, k) in ren.items()}
    elif ambiguous:
        ctx.label("ambiguous refused")
        return
    else:
        fwd = {k: "%s/%s" % (k[0], k[1]) for k in keys}
    want = {}
    for t, rows in data.items():
        fs = sum(spec["tables"][t], [])
        want[t] = [[fwd[sorted(target[t, fn])[0], gen.norm(v)] if (t, fn) in target else v for fn, v in zip(fs, r)] for r in rows] \
            if not ambiguous else rows
    if not ambiguous and any(orphans(spec, want, fk) for fk in spec["fks"]):
        require(err is not None, "the copy cannot be consistent with all foreign keys, but was not refused")
        ctx.label("inconsistent refused")
        return
    if err is not None:
        raise err
    got = content(spec, copy)
    if cls == "P":
        got = {t: [[native(c) for c in r] for r in rows] for t, rows in got.items()}
    if not ambiguous:
        require_eq(gen.diff_content(want, got), None, "obfuscated copy")
    undone = {}
    for t, rows in got.items():
        fs = sum(spec["tables"][t], [])
        undone[t] = [[back.get(v, v) if (t, fn) in target else v for fn, v in zip(fs, r)] for r in rows]
    require_eq(gen.diff_content(data, undone), None, "applying renamings backwards")
    require(not f.find_foreign_key_failures(copy), "the copy has foreign key failures")
    if cls == "T" and case["freeze"] and any(data.values()):
        t = next(t for t in data if data[t])
        tbl = getattr(copy, t)
        try:
            tbl.clear()
            froze = False
        except Exception:
            froze = True
        require(froze, "freeze_it: %s of the copy could be cleared", t)
    if ren:
        ctx.nontrivial("renamed")
        if any(t not in ents or fn not in spec["tables"][t][0] for t, fn in target):
            ctx.label("references renamed")
        if skip:
            ctx.label("some skipped")


def many_cases():
    out = []
    for pat in ("a%s", "i%s", "p_%s", "ii%s"):
        for n in (3, 24, 25, 26, 27, 28, 60):
            out.append({"names": [pat % i for i in range(n)]})
    out.append({"names": ["i" * (i + 1) for i in range(40)]})
    out.append({"names": ["a" * (i + 1) for i in range(40)]})
    out.append({"names": ["ab", "ac", "b", "abc", "iab", "ba", "a", "aa", "aaa"]})
    return out


def check_many(case, ctx):
    """every entity table gets its own prefix"""
    names = case["names"]
    spec = {"tables": {t: [["k"], ["x"]] for t in names}, "fks": []}
    tdf = gen.tdf_of(spec)
    data = {t: [[i, t], [i + 1, 0]] for i, t in enumerate(names)}
    dat = gen.make_td(tdf, spec, data)
    res = tdf.obfusimplify(dat)
    require_eq(len(res.renamings), 2 * len(names), "number of renamings")
    got = gen.td_content(spec, res.copy)
    require_eq({t: [[res.renamings[r[0]], r[1]] for r in rows] for t, rows in got.items()},
               {t: [[(t, r[0]), r[1]] for r in rows] for t, rows in data.items()}, "renamings applied backwards")
    ctx.nontrivial("many tables")


FACETS = [
    Facet("prefixes", check_many, cases=many_cases, rule="every case"),
    Facet("ticdat", lambda c, x: check(c, x, "T"), _case, quick=5000, rule="keys were renamed, or the call had to be refused"),
    Facet("pandat", lambda c, x: check(c, x, "P"), _case, quick=1200, rule="keys were renamed, or the call had to be refused"),
]
