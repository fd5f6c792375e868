from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail

TECHNIQUE = "good objects plus one generated structural corruption with the verdict known by construction; PanDat constructor against a plain-list model"
NOTE = ("Random schemas and data; each corruption kind has a verdict that follows from the documented rule (strict and generous "
        "row checking). Explores one corruption at a time, generator and generic tables included.")

TD_BAD = {  # kind -> (needs, verdict strict, verdict generous)
    "none": (None, True, True),
    "drop_table": (None, False, False),
    "dataframe": (None, False, False),
    "not_a_table": (None, False, False),
    "row_missing_field": ("row2", False, True),
    "row_extra_field": ("row", False, False),
    "row_renamed_field": ("rowf", False, False),
    "row_as_list": ("rowf", False, True),
    "row_short_list": ("row2", False, False),
    "row_long_list": ("rowf", False, False),
    "row_scalar": ("rowf", False, "one"),
    "key_longer": ("keyed", False, False),
    "key_shorter": ("compound", False, False),
    "key_scalar": ("compound", False, False),
    "key_tuple": ("simple", False, False),
    "keyed_as_list": ("keyed", False, False),
    "extra_attribute": (None, True, True),
    "plain_dict_rows": (None, True, True),
}


class Obj(object):
    pass


def plain(spec, data):
    o = Obj()
    for t in spec["tables"]:
        if spec["tables"][t] != "*":
            setattr(o, t, gen.td_table(spec, t, data[t]))
    return o


@st.composite
def _td_case(draw):
    spec = draw(gen.full_spec(1, 3))
    cells = gen.general_cells(spec, draw)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5))
    t = draw(st.sampled_from(sorted(spec["tables"])))
    pks, dfs = spec["tables"][t]
    ok = []
    for k, (need, _, _) in TD_BAD.items():
        if {"row": True, "rowf": bool(dfs), "row2": len(dfs) > 1, "keyed": bool(pks), "compound": len(pks) > 1,
            "simple": len(pks) == 1, None: True}[need]:
            ok.append(k)
    bad = draw(st.sampled_from(ok))
    if TD_BAD[bad][0] and not data[t]:
        data[t] = draw(gen.rows_for(spec, t, lambda t_, f: cells[t_, f], 1, 3))
    return {"spec": spec, "data": data, "table": t, "bad": bad, "i": draw(st.integers(0, 5)),
            "native": draw(st.booleans()), "frozen": draw(st.booleans()), "generic": draw(st.booleans()),
            "genericbad": draw(st.booleans()), "junk": draw(st.sampled_from([5, "rows", None, 2.5])),
            "gen": draw(st.booleans())}


def check_td(case, ctx):
    import pandas as pd
    spec, data, t, bad = case["spec"], case["data"], case["table"], case["bad"]
    s2 = dict(spec, tables=dict(spec["tables"]))
    if case["generic"]:
        s2["tables"]["anything"] = "*"
    keyless = [u for u in spec["tables"] if not spec["tables"][u][0]]
    tdf = gen.tdf_of(s2)
    pks, dfs = spec["tables"][t]
    if bad == "none" and case["native"]:
        o = gen.make_td(tdf, s2, data)
        if case["generic"]:
            o = tdf.TicDat(anything=pd.DataFrame({"u": [1, 2]}), **{u: gen.td_table(spec, u, r) for u, r in data.items()})
        if case["frozen"]:
            o = tdf.freeze_me(o)
    else:
        o = plain(spec, data)
        if case["generic"]:
            o.anything = pd.DataFrame({"u": [1, 2]})
    strict, generous = TD_BAD[bad][1:]
    if generous == "one":
        generous = len(dfs) == 1
    i = case["i"] % max(1, len(data[t]))
    tbl = getattr(o, t)
    n = len(pks)
    if TD_BAD[bad][0]:
        row = data[t][i]
        key = i if not n else gen.pk_of(spec, t, row)
        drow = dict(zip(dfs, row[n:]))
    if bad == "drop_table":
        delattr(o, t)
    elif bad == "dataframe":
        setattr(o, t, pd.DataFrame({f: [] for f in pks + dfs}))
    elif bad == "not_a_table":
        setattr(o, t, case["junk"])
    elif bad == "row_missing_field":
        drow.pop(dfs[case["i"] % len(dfs)])
        tbl[key] = drow
    elif bad == "row_extra_field":
        tbl[key] = dict(drow, **{"no such field": 1})
    elif bad == "row_renamed_field":
        f = dfs[case["i"] % len(dfs)]
        v = drow.pop(f)
        tbl[key] = dict(drow, **{f + " x": v})
    elif bad == "row_as_list":
        tbl[key] = row[n:]
    elif bad == "row_short_list":
        tbl[key] = row[n:-1]
    elif bad == "row_long_list":
        tbl[key] = row[n:] + [1]
    elif bad == "row_scalar":
        tbl[key] = 5
    elif bad == "key_longer":
        tbl[tuple(row[:n]) + (1,)] = tbl.pop(key)
    elif bad == "key_shorter":
        tbl[tuple(row[:n - 1])] = tbl.pop(key)
    elif bad == "key_scalar":
        tbl["a scalar"] = tbl.pop(key)
    elif bad == "key_tuple":
        tbl[(1, 2)] = tbl.pop(key)
    elif bad == "keyed_as_list":
        setattr(o, t, [dict(d) for d in tbl.values()])
        if not dfs:
            generous = None  # a list of keys is accepted for a table without data fields: not decided here
    elif bad == "extra_attribute":
        o.not_in_schema = 5
    if case["generic"] and case["genericbad"] and bad in ("extra_attribute", "plain_dict_rows"):
        o.anything = [{"u": 1}]
        strict = generous = False
    for mode, want in (("strict", strict), ("generous", generous)):
        if want is None:
            continue
        msgs = []
        got = tdf.good_tic_dat_object(o, msgs.append, row_checking=mode)
        require(got is want or (got == want and isinstance(got, bool)), "%s good_tic_dat_object said %r for %s of table %s",
                mode, got, bad, t)
        require(want or msgs, "good_tic_dat_object returned False without a message (%s)", bad)
        require(not want or not msgs, "good_tic_dat_object returned True with messages %s", msgs)
    require(tdf.good_tic_dat_object(o) == strict, "row_checking does not default to strict")
    if hasattr(o, t) and bad not in ("dataframe", "drop_table") and generous is not None and \
            not (case["generic"] and case["genericbad"]):
        msgs = []
        got = tdf.good_tic_dat_table(getattr(o, t), t, msgs.append)
        require(got == generous, "good_tic_dat_table said %r for %s of table %s", got, bad, t)
        require(got or msgs, "good_tic_dat_table returned False without a message (%s)", bad)
    ctx.label(bad)
    # what is good is also good for factories over fewer tables and same fields, and can be copied
    if strict:
        other = type(tdf)(**{u: v for u, v in tdf.schema().items()})
        require(other.good_tic_dat_object(o), "not good for a factory with the same tables and fields")
        d = gen.diff_content(data, gen.td_content(spec, tdf.copy_tic_dat(o)))
        require(d is None, "copy of a good object differs: %s", d)
        fewer = type(tdf)(**{u: v for u, v in tdf.schema().items() if u == t})
        require(fewer.good_tic_dat_object(o), "not good for a factory with one of the tables")
    elif generous is False:
        refuses = []
        for what, f in (("copy_tic_dat", tdf.copy_tic_dat), ("find_foreign_key_failures", tdf.find_foreign_key_failures),
                        ("find_data_type_failures", tdf.find_data_type_failures), ("freeze_me", tdf.freeze_me)):
            try:
                f(o)
            except Exception:
                continue
            fail("%s accepted an object that is not good (%s)" % (what, bad))
    if any(data.values()):
        ctx.nontrivial("with rows")


# ------------------------------------------------------------------ PanDat
FORMS = ["df", "df_pk_index", "col_dict", "row_dicts", "tuples", "df_shuffled", "df_extra", "df_index"]


@st.composite
def _pd_case(draw):
    spec = draw(gen.full_spec(1, 3))
    cells = gen.general_cells(spec, draw, nulls=False)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5, unique_pk=False))
    forms, omit = {}, {}
    for t, (pks, dfs) in spec["tables"].items():
        forms[t] = draw(st.sampled_from(FORMS))
        omit[t] = draw(st.lists(st.sampled_from(dfs), unique=True, max_size=2)) if dfs else []
        if len(omit[t]) == len(pks) + len(dfs):
            omit[t] = omit[t][1:]
    return {"spec": spec, "data": data, "forms": forms, "omit": omit,
            "absent": draw(st.lists(st.sampled_from(sorted(spec["tables"])), max_size=1)),
            "bad": draw(st.sampled_from(["none", "none", "drop_pk", "drop_attr", "not_df", "drop_col", "unknown"])),
            "badt": draw(st.integers(0, 5)), "badf": draw(st.integers(0, 5)), "empty": draw(st.sampled_from([None, [], {}]))}


def check_pd(case, ctx):
    import pandas as pd
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    args, want = {}, {}
    ts = sorted(spec["tables"])
    for t in ts:
        pks, dfs = spec["tables"][t]
        fs = pks + dfs
        rows = data[t]
        if t in case["absent"]:
            want[t] = []
            if case["empty"] is not None:
                args[t] = case["empty"]
            continue
        form, omit = case["forms"][t], list(case["omit"][t])
        if form == "tuples" or (form == "row_dicts" and not rows):
            omit = []
        keep = [f for f in fs if f not in omit]
        df = pd.DataFrame([[r[fs.index(f)] for f in keep] for r in rows], columns=keep)
        dv = pdf.default_values.get(t, {})
        want[t] = [[dv[f] if f in omit else v for f, v in zip(fs, r)] for r in rows]
        if form == "df":
            args[t] = df
        elif form == "df_shuffled":
            args[t] = df[keep[::-1]]
        elif form == "df_extra":
            df.insert(0, "extra column", 7)
            args[t] = df
        elif form == "df_index":
            df.index = [k * 3 + 5 for k in range(len(df))][::-1]
            args[t] = df
        elif form == "df_pk_index":
            if pks and len(keep) > len(pks):
                df = df.set_index(list(pks))
            args[t] = df
        elif form == "col_dict":
            args[t] = {f: [r[fs.index(f)] for r in rows] for f in keep}
        elif form == "row_dicts":
            args[t] = [{f: r[fs.index(f)] for f in keep} for r in rows]
        elif form == "tuples":
            args[t] = [tuple(r) for r in rows]
        ctx.label("form " + form)
    bad = case["bad"]
    bt = ts[case["badt"] % len(ts)]
    pks, dfs = spec["tables"][bt]
    before = {t: a.copy() for t, a in args.items() if isinstance(a, pd.DataFrame)}
    if bad == "drop_pk":
        missing = [f for f in pks if f not in pdf.default_values.get(bt, {})]
        if not missing or bt not in args or not hasattr(args[bt], "columns") or not set(pks) <= set(args[bt].columns) \
                or len(args[bt].columns) < 2:
            return
        args[bt] = args[bt].drop(columns=[missing[case["badf"] % len(missing)]])
        try:
            pdf.PanDat(**args)
        except Exception:
            ctx.nontrivial("missing key column rejected")
            return
        fail("a DataFrame without a primary key column was accepted")
    if bad == "unknown":
        try:
            pdf.PanDat(no_such_table=pd.DataFrame({"a": [1]}), **args)
        except Exception:
            ctx.nontrivial("unknown table rejected")
            return
        fail("unknown table accepted by the PanDat constructor")
    dat = pdf.PanDat(**args)
    for t, a in before.items():
        require(a.equals(args[t]) and list(a.columns) == list(args[t].columns), "constructor changed its argument %s", t)
    got = gen.pd_content(spec, dat)
    for t in ts:
        require_eq(gen.norm_rows(got[t]), gen.norm_rows(want[t]), "PanDat table %s (form %s)" % (t, case["forms"][t]))
        fs = spec["tables"][t][0] + spec["tables"][t][1]
        require(list(getattr(dat, t).columns)[:len(fs)] == fs, "columns of %s are not in schema order: %s", t,
                list(getattr(dat, t).columns))
    msgs = []
    require(pdf.good_pan_dat_object(dat, msgs.append) is True and not msgs, "constructed PanDat is not good: %s", msgs)
    # independence from the arguments
    for t in ts:
        df = getattr(dat, t)
        if len(df) and isinstance(args.get(t), pd.DataFrame):
            df.iloc[0, 0] = df.iloc[0, 0]
            df["new col"] = 1
            require("new col" not in args[t].columns, "PanDat shares a DataFrame with its argument")
            df.drop(columns=["new col"], inplace=True)
    o = Obj()
    for t in ts:
        setattr(o, t, getattr(dat, t))
    verdict = True
    if bad == "drop_attr":
        delattr(o, bt)
        verdict = False
    elif bad == "not_df":
        setattr(o, bt, gen.td_table(spec, bt, []))
        verdict = False
    elif bad == "drop_col":
        f = (pks + dfs)[case["badf"] % len(pks + dfs)]
        setattr(o, bt, getattr(dat, bt).drop(columns=[f]))
        verdict = False
    msgs = []
    got = pdf.good_pan_dat_object(o, msgs.append)
    require(got == verdict, "good_pan_dat_object said %r for %s", got, bad)
    require(verdict or msgs, "good_pan_dat_object returned False without a message (%s)", bad)
    if not verdict:
        for what, f in (("copy_pan_dat", pdf.copy_pan_dat), ("find_data_type_failures", pdf.find_data_type_failures),
                        ("find_duplicates", pdf.find_duplicates), ("copy_to_tic_dat", pdf.copy_to_tic_dat),
                        ("find_foreign_key_failures", pdf.find_foreign_key_failures if pdf.foreign_keys else None)):
            if f is None:
                continue
            try:
                f(o)
            except Exception:
                continue
            fail("%s accepted an object that is not good (%s)" % (what, bad))
    if any(data.values()):
        ctx.nontrivial("with rows")


# ------------------------------------------------------------------ one table in every form, long ones included
TFORMS = ["dict_dict", "dict_list", "dict_scalar", "rows_dict", "rows_list", "rows_scalar", "keys", "df", "df_index", "series", "function", "text", "number", "none", "iterator"]
DEFECTS = ["none", "none", "long", "short", "extra", "renamed", "key", "column", "index"]


@st.composite
def _table_case(draw):
    pool = draw(st.permutations(["name", "k", "Qty", "index", "a b", "x", "values"]))
    npk, ndf = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    ndf = max(ndf, 0 if npk else 1)
    form = draw(st.sampled_from(TFORMS))
    n = draw(st.sampled_from([0, 1, 2, 3, 5, 5, 1200, 2600] if form in ("dict_dict", "dict_list", "rows_dict", "rows_list", "keys") else [0, 1, 2, 3]))
    return {"fields": [list(pool[:npk]), list(pool[npk:npk + ndf])], "form": form, "n": n, "defect": draw(st.sampled_from(DEFECTS)), "at": draw(st.sampled_from([0, 1, -1, -1])),
            "gen": draw(st.booleans()), "generic": draw(st.integers(0, 19)) == 0, "unknown": draw(st.integers(0, 19)) == 0, "default": draw(st.booleans())}


def check_table(case, ctx):
    import pandas as pd
    pks, dfs = case["fields"]
    n, form, defect, np, nd = case["n"], case["form"], case["defect"], len(pks), len(dfs)
    from ticdat import TicDatFactory
    tdf = TicDatFactory(t=[pks, dfs], other=[["k"], []], **({"u": "*"} if case["generic"] else {}))
    if case["default"] and dfs:
        tdf.set_default_value("t", dfs[-1], 5)
    gen_ = case["gen"] and not np
    if gen_:
        tdf.set_generator_tables(["t"])
    key = [i if np == 1 else (i, "k%s" % (i % 7)) for i in range(n)]
    rows = [[i % 5 + j for j in range(nd)] for i in range(n)]
    at = None if not n else case["at"] % n
    hits, good, builds = False, True, True  # whether the defect applies; verdict of good_tic_dat_table; whether the constructor accepts
    strict = form in ("dict_dict", "rows_dict", "function")
    bad = lambda r: r  # a row with its defect
    if form in ("dict_dict", "rows_dict", "function"):
        if not nd and form != "dict_dict":
            return
        if form == "function" and np:
            good = builds = strict = False
        if form == "rows_dict" and np:
            strict, good = False, None  # a list of keys in the eyes of good_tic_dat_table; rows for the constructor
        rr = [dict(zip(dfs, r)) for r in rows]
        if form == "rows_dict":
            rr = [dict(zip(pks, k if np > 1 else [k]), **r) for k, r in zip(key, rr)]
        if at is not None and defect in ("extra", "renamed", "short"):
            r = rr[at]
            if defect == "extra":
                r["no such"] = 1
                good, builds, strict, hits = good and False, False, False, True
            elif defect == "renamed" and nd:
                r["no such"] = r.pop(dfs[0])
                good, builds, strict, hits = good and False, False, False, True
            elif defect == "short" and nd > 1:  # other fields take the default
                r.pop(dfs[-1])
                strict, hits = False, True
        if form == "dict_dict":
            tbl = dict(zip(key, rr))
        else:
            tbl = rr if form == "rows_dict" else lambda: iter([dict(r) for r in rr])
    elif form in ("dict_list", "rows_list"):
        rr = [list(r) for r in rows]
        full = np + nd if form == "rows_list" else nd
        if form == "rows_list" and np:
            rr = [list(k if np > 1 else [k]) + r for k, r in zip(key, rr)]
            good = None
        if at is not None and defect in ("long", "short"):
            rr[at] = rr[at] + [1] if defect == "long" else rr[at][:-1]
            if len(rr[at]) != full:
                good, builds, hits = good and False, False, True
        strict = not n and (form == "dict_list" or not np)
        tbl = dict(zip(key, rr)) if form == "dict_list" else [tuple(r) for r in rr] if case["default"] else rr
    elif form in ("dict_scalar", "rows_scalar"):
        strict = not n and (form == "dict_scalar" or not np)
        rr = [7] * n
        if form == "rows_scalar" and np:
            return
        good = builds = nd == 1 or not n
        tbl = dict(zip(key, rr)) if form == "dict_scalar" else rr
    elif form == "keys":
        if not np or nd:
            return
        tbl, strict = list(key), False
    elif form in ("df", "df_index", "series"):
        strict = False
        df = pd.DataFrame([list(k if np > 1 else [k]) + r if np else r for k, r in zip(key, rows)] if np else rows, columns=pks + dfs)
        if form == "df_index" or (form == "series" and np):
            if not np:
                return
            df = df.set_index(pks)
        good = "name" not in dfs and not ("name" in pks and np > 1)
        if defect == "column" and nd:
            df = df.drop(columns=[dfs[-1]])
            hits = True
            good = None if form != "series" else False  # the constructor fills in the default; the check's verdict isn't documented
            builds = None
        elif defect == "index" and form != "df" and np:
            df.index.names = ["no such"] * np if np > 1 else ["no such"]
            good, hits = False, True
        elif defect == "key" and form == "df" and np:
            if np + nd == 1:
                return
            df = df.drop(columns=[pks[0]])
            good, hits = False, True
        if builds is not None:
            builds = good
        if form == "series":
            if defect == "column":
                return
            if nd != 1:
                return
            tbl = df[dfs[0]]
        else:
            tbl = df
            if not nd and form == "df_index":
                return
        if gen_:
            good = builds = strict = False
    elif form in ("text", "number", "none", "iterator"):
        tbl = {"text": "rows", "number": 7, "none": None, "iterator": iter([])}[form]
        good = builds = strict = False
        if form == "none":
            builds = None
    if form == "function" and not np and not gen_:
        good = builds = strict = False
    if form.startswith("dict") and gen_:
        good = builds = strict = False
    if form.startswith("dict") and not np:
        return  # not documented: the keys are looked upon as the rows
    if form.startswith("dict") and np and defect == "key" and at is not None:
        r = tbl.pop(key[at])
        tbl[(key[at] if np > 1 else (key[at],)) + ("one more",)] = r
        good, builds, strict, hits = False, False, False, True
    what = "%s of %s rows for %s%s%s" % (form, n, [pks, dfs], " (a generator table)" if gen_ else "", " with defect %s at %s" % (defect, at) if hits else "")
    for mode, want in (("generous", good), ("strict", strict and good)):
        if want is None:
            continue
        msgs = []
        got = tdf.good_tic_dat_table(tbl, "t", msgs.append, row_checking=mode)
        require(got is bool(want), "good_tic_dat_table (%s) said %r for a %s", mode, got, what)
        require(got == (not msgs), "good_tic_dat_table (%s) said %r with messages %s for a %s", mode, got, msgs, what)
        if mode == "generous":
            require(tdf.good_tic_dat_table(tbl, "t") is got, "row_checking of good_tic_dat_table does not default to generous: %s", what)
    if case["unknown"]:
        msgs = []
        require(tdf.good_tic_dat_table(tbl, "no such table", msgs.append) is False and msgs, "an unknown table is good")
    if builds is not None:
        try:
            dat = tdf.TicDat(t=tbl)
        except Exception as e:
            require(not builds, "the constructor refused a %s: %s", what, e)
        else:
            require(builds, "the constructor accepted a %s", what)
            require(tdf.good_tic_dat_object(dat), "a TicDat built from a %s is not good", what)
            got = list(dat.t()) if gen_ else dat.t
            require(len(got) == n, "%s rows from a %s", len(got), what)
    ctx.label(form)
    if n > 1000:
        ctx.label("long")
    if hits or n:
        ctx.nontrivial("%s %s" % (form, defect if hits else "good" if good else "verdict %s" % good))


FACETS = [
    Facet("ticdat", check_td, _td_case, quick=6000, rule="some table has rows; corruption kinds in labels"),
    Facet("pandat", check_pd, _pd_case, quick=5000, rule="some table has rows (or a corruption was rejected); forms in labels"),
    Facet("tables", check_table, _table_case, quick=2500, rule="the table has rows or a defect"),
]
