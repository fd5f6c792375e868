import os
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, Violation, require, fail

TECHNIQUE = "stateful copy/mutate histories against a plain-list model of every live object; before/after snapshots around every diagnostic and writer"
NOTE = "Random histories over TicDat, PanDat and dict copies; every object's full content compared after every step. Diagnostics and writers that refuse the data count as calls too, they may still not touch it."


def exact(x):
    """value and type, for detecting any modification"""
    return (type(x).__name__, repr(x))


def snap_td(spec, dat):
    return {t: ([[exact(c) for c in r] for r in gen.td_rows(spec, dat, t)],
                type(getattr(dat, t)).__name__) for t in spec["tables"]}


def snap_pd(spec, dat):
    out = {}
    for t in spec["tables"]:
        df = getattr(dat, t)
        out[t] = (list(df.columns), [exact(i) for i in df.index], [str(d) for d in df.dtypes],
                  [[exact(c) for c in r] for r in df.itertuples(index=False, name=None)])
    return out


def snap_schema(f):
    s = dict(f.schema(include_ancillary_info=True))
    s["foreign_keys"] = sorted(map(repr, s["foreign_keys"]))
    return repr(sorted((k, repr(v) if not isinstance(v, dict) else repr(sorted((a, repr(b)) for a, b in v.items())))
                       for k, v in s.items())) + repr(sorted((t, sorted(map(repr, f.get_row_predicates(t))))
                                                             for t in f.all_tables))


# ----------------------------------------------------------------- copies
@st.composite
def _copy_case(draw):
    spec = draw(gen.full_spec(1, 3, inf=False, params=False, types=False))
    spec["dups"] = "assert"
    cells = gen.general_cells(spec, draw)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 4))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["copy", "copy", "cell", "cell", "add", "remove", "clear", "pandas", "asdict",
                                     "topan", "frozen", "replace_table"]))
        t = draw(st.sampled_from(sorted(spec["tables"])))
        fs = spec["tables"][t][0] + spec["tables"][t][1]
        ops.append([kind, draw(st.integers(0, 9)), t, draw(st.integers(0, 9)), draw(st.integers(0, 9)),
                    [draw(cells[t, f]) for f in fs]])
    return {"spec": spec, "data": data, "ops": ops}


def check_copies(case, ctx):
    """live objects, each with its expected content; every operation touches one object only"""
    spec = case["spec"]
    tdf, pdf = gen.tdf_of(spec), gen.pdf_of(spec)
    base = gen.make_td(tdf, spec, case["data"])
    live = [["td", base, {t: [list(r) for r in rows] for t, rows in case["data"].items()}]]
    mutated = copied = False
    for kind, which, t, i, j, row in case["ops"]:
        k, obj, exp = live[which % len(live)]
        pks, dfs = spec["tables"][t]
        n = len(pks)
        cp = {u: [list(r) for r in rows] for u, rows in exp.items()}
        if kind in ("copy", "frozen", "asdict"):
            copied = True
            if k == "td":
                new = tdf.copy_tic_dat(obj) if kind == "copy" else (
                    tdf.TicDat(**tdf.as_dict(obj)) if kind == "asdict" else tdf.copy_tic_dat(
                        tdf.copy_tic_dat(obj, freeze_it=True)))
                live.append(["td", new, cp])
            elif k == "pd":
                live.append(["pd", pdf.copy_pan_dat(obj), cp])
            else:
                live.append(["dict", tdf.as_dict(tdf.TicDat(**obj)), cp])
            if kind == "asdict" and k == "td":
                live.append(["dict", tdf.as_dict(obj), {u: [list(r) for r in rows] for u, rows in exp.items()}])
        elif kind == "pandas" and k == "td":
            copied = True
            live.append(["pd", pdf.PanDat(**{u: getattr(c, u) for u in spec["tables"]}
                                          ), cp]) if False else None
            c = tdf.copy_to_pandas(obj, reset_index=True)
            live.append(["pd", c, cp])
        elif kind == "topan" and k == "pd":
            if _unique(spec, exp):
                copied = True
                live.append(["td", pdf.copy_to_tic_dat(obj), cp])
        elif kind in ("cell", "add", "remove", "clear", "replace_table"):
            mutated = True
            _mutate(spec, k, obj, exp, kind, t, i, j, row)
        for q, (kk, o, e) in enumerate(live):
            got = {"td": gen.td_content, "pd": gen.pd_content}[kk](spec, o) if kk != "dict" else \
                gen.td_content(spec, _DictView(spec, o))
            d = gen.diff_content(e, got)
            if d:
                fail("after %s on object #%d, object #%d (%s) is wrong: %s" % (kind, which % len(live), q, kk, d))
    if copied and mutated and sum(map(len, case["data"].values())):
        ctx.nontrivial("copied and mutated")


class _DictView:
    def __init__(self, spec, d):
        for t in spec["tables"]:
            setattr(self, t, d[t])


def _unique(spec, exp):
    for t, rows in exp.items():
        n = len(spec["tables"][t][0])
        if n and len({tuple(r[:n]) for r in gen.norm_rows(rows)}) != len(rows):
            return False
        if n and any(gen.is_null(c) for r in rows for c in r[:n]):
            return False
    return True


def _mutate(spec, k, obj, exp, kind, t, i, j, row):
    import pandas as pd
    pks, dfs = spec["tables"][t]
    n = len(pks)
    rows = exp[t]
    key = row[0] if n == 1 else tuple(row[:n])
    if k in ("td", "dict"):
        tbl = obj[t] if k == "dict" else getattr(obj, t)
        if kind == "cell" and rows and dfs:
            r = rows[i % len(rows)]
            f = j % len(dfs)
            kk = i % len(rows) if not n else (r[0] if n == 1 else tuple(r[:n]))
            tbl[kk][dfs[f]] = row[n + f]
            r[n + f] = row[n + f]
        elif kind == "add":
            d = dict(zip(dfs, row[n:]))
            if n:
                hit = [q for q, r in enumerate(rows) if tuple(map(gen.norm, r[:n])) == tuple(map(gen.norm, row[:n]))]
                tbl[key] = d
                if hit:
                    rows[hit[0]][n:] = row[n:]
                else:
                    rows.append(list(row))
            else:
                tbl.append(d)
                rows.append(list(row))
        elif kind == "remove" and rows:
            q = i % len(rows)
            r = rows.pop(q)
            if n:
                tbl.pop(r[0] if n == 1 else tuple(r[:n]))
            else:
                tbl.pop(q)
        elif kind == "clear":
            tbl.clear()
            rows[:] = []
    else:
        df = getattr(obj, t)
        if kind == "cell" and rows:
            f = j % (n + len(dfs))
            c = df.columns.get_loc((list(pks) + list(dfs))[f])
            col = df.iloc[:, c].astype(object).copy()
            v = row[f]
            col.iloc[i % len(rows)] = v
            df[df.columns[c]] = col.values
            rows[i % len(rows)][f] = v
            if len(df) and not gen.is_null(v):
                # also an in-place write through the underlying block
                df.iloc[i % len(rows), c] = v
        elif kind == "add":
            df.loc[max([x for x in df.index if isinstance(x, int)] + [-1]) + 1] = row
            rows.append(list(row))
        elif kind == "remove" and rows:
            q = i % len(rows)
            df.drop(df.index[q], inplace=True)
            rows.pop(q)
        elif kind == "clear":
            df.drop(df.index, inplace=True)
            rows[:] = []


# ----------------------------------------------------------------- purity
TD_CALLS = ["fk", "fk_low", "type", "type1", "row", "row1", "obfu", "params", "good", "good_strict", "copy", "pandas",
            "pandas_drop", "asdict", "keyless", "json", "json_compact", "csv", "db", "db_sql", "sql_noschema", "xlsx", "xls",
            "freeze_copy", "same", "clone"]
PD_CALLS = ["fk", "fk_list", "fk1", "type", "type_series", "type1", "row", "row_series", "row1", "dups", "dups_last",
            "obfu", "params", "good", "copy", "totd", "json", "json_pd", "csv", "db", "xlsx", "same", "clone"]


@st.composite
def _pure_case(draw):
    which = draw(st.sampled_from(["td", "pd"]))
    spec = draw(gen.full_spec(1, 3, full_pk=None))
    cells = gen.general_cells(spec, draw, inf=spec["inf"] != "N/A",
                              text=st.sampled_from(["a", "b", "x,y", "é", "12", "2020-01-02", "c d"]))
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 4, unique_pk=which == "td"))
    calls = draw(st.lists(st.sampled_from(TD_CALLS if which == "td" else PD_CALLS), min_size=1, max_size=4))
    preds = draw(st.lists(st.tuples(st.sampled_from(sorted(spec["tables"])), st.integers(0, 2)), max_size=2))
    return {"which": which, "spec": spec, "data": data, "calls": calls, "preds": [list(p) for p in preds],
            "index": draw(st.booleans()), "extra": draw(st.booleans()), "frozen": draw(st.booleans())}


def _add_preds(f, spec, preds):
    for i, (t, kind) in enumerate(preds):
        fld = (spec["tables"][t][0] + spec["tables"][t][1])[0]
        if kind == 0:
            f.add_data_row_predicate(t, lambda row, fld=fld: row[fld] not in (1, "a"), "p%d" % i)
        elif kind == 1:
            f.add_data_row_predicate(t, lambda row, fld=fld: True if row[fld] != 2 else "bad", "p%d" % i,
                                     predicate_failure_response="Error Message")
        else:
            f.add_data_row_predicate(t, lambda row, k, fld=fld: row[fld] != k, "p%d" % i, lambda dat: {"k": 1})


def check_pure(case, ctx):
    import copy
    spec, which = case["spec"], case["which"]
    d = ctx.tmpdir()
    if which == "td":
        f = gen.tdf_of(spec)
        _add_preds(f, spec, case["preds"])
        dat = gen.make_td(f, spec, case["data"])
        if case["frozen"]:
            dat = f.freeze_me(dat)
        snap = snap_td
    else:
        import pandas as pd
        f = gen.pdf_of(spec)
        _add_preds(f, spec, case["preds"])
        dat = gen.make_pd(f, spec, case["data"])
        for t in spec["tables"]:
            df = getattr(dat, t)
            if case["index"]:
                df.index = [("r", k) for k in range(len(df))] if len(df) else df.index
                df.index = pd.Index([10 * k for k in range(len(df))][::-1], name="ix")
            if case["extra"]:
                df["extra column"] = 5
        snap = snap_pd
    dtypes_before = snap(spec, dat)
    schema_before = snap_schema(f)
    n = 0
    for call in case["calls"]:
        before = snap(spec, dat)
        ok = _call(f, which, call, dat, os.path.join(d, "o%d" % n), spec)
        n += 1
        if ok:
            ctx.label("call " + which + " " + call)
        after = snap(spec, dat)
        require(before == after, "%s %s changed the data object: before %s after %s", which, call, before, after)
        now = snap_schema(f)
        require(now == schema_before, "%s %s changed the factory's schema: before %s after %s", which, call, schema_before,
                now)
    if sum(map(len, case["data"].values())):
        ctx.nontrivial("has rows")


def _call(f, which, call, dat, path, spec):
    hf = dict(exception_handling="Handled as Failure")
    try:
        if call == "fk":
            f.find_foreign_key_failures(dat)
        elif call == "fk_low":
            f.find_foreign_key_failures(dat, verbosity="Low", max_failures=2)
        elif call == "fk_list":
            f.find_foreign_key_failures(dat, as_table=False)
        elif call == "fk1":
            f.find_foreign_key_failures(dat, max_failures=1)
        elif call == "type":
            f.find_data_type_failures(dat)
        elif call == "type1":
            f.find_data_type_failures(dat, max_failures=1)
        elif call == "type_series":
            f.find_data_type_failures(dat, as_table=False)
        elif call == "row":
            f.find_data_row_failures(dat, **hf)
        elif call == "row1":
            f.find_data_row_failures(dat, max_failures=1, **hf)
        elif call == "row_series":
            f.find_data_row_failures(dat, as_table=False, **hf)
        elif call == "dups":
            f.find_duplicates(dat)
        elif call == "dups_last":
            f.find_duplicates(dat, keep="last", as_table=False)
        elif call == "obfu":
            f.obfusimplify(dat)
        elif call == "params":
            f.create_full_parameters_dict(dat)
        elif call in ("good", "good_strict"):
            if which == "td":
                f.good_tic_dat_object(dat, row_checking="strict" if call == "good_strict" else "generous")
            else:
                f.good_pan_dat_object(dat)
        elif call == "copy":
            (f.copy_tic_dat if which == "td" else f.copy_pan_dat)(dat)
        elif call == "freeze_copy":
            f.copy_tic_dat(dat, freeze_it=True)
        elif call == "pandas":
            f.copy_to_pandas(dat, reset_index=True)
        elif call == "pandas_drop":
            f.copy_to_pandas(dat, drop_pk_columns=True)
        elif call == "totd":
            f.copy_to_tic_dat(dat)
        elif call == "asdict":
            f.as_dict(dat)
        elif call == "keyless":
            getattr(f, "_keyless", f.good_tic_dat_object)(dat)
        elif call == "same":
            getattr(f, "_same_data", lambda a, b: True)(dat, dat)
        elif call == "clone":
            f.clone()
        elif call == "json":
            f.json.write_file(dat, path + ".json")
        elif call == "json_compact":
            f.json.write_file(dat, path + ".json", verbose=False)
        elif call == "json_pd":
            f.json.write_file_pd(dat, path + ".json")
        elif call == "csv":
            f.csv.write_directory(dat, path)
        elif call == "db":
            (f.sql.write_db_data if which == "td" else f.sql.write_file)(dat, path + ".db")
        elif call == "db_sql":
            f.sql.write_sql_file(dat, path + ".sql", include_schema=True)
        elif call == "sql_noschema":
            f.sql.write_sql_file(dat, path + ".sql")
        elif call in ("xlsx", "xls"):
            f.xls.write_file(dat, path + "." + call)
        else:
            raise KeyError(call)
        return True
    except KeyError:
        raise
    except Exception:
        # whether the call may refuse the data is another property's business; it still may not touch it
        return False


# ----------------------------------------------------------------- generic tables
@st.composite
def _generic_case(draw):
    ops = [[draw(st.sampled_from(["copy", "copy", "convert", "loc", "iloc", "column", "values", "construct", "frozen"])),
            draw(st.integers(0, 9)), draw(st.integers(0, 9)), draw(st.integers(0, 9))] for _ in range(draw(st.integers(2, 8)))]
    return {"rows": draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0.5, 1.5]), st.sampled_from(["u", "v"])).map(list),
                                  min_size=1, max_size=4)),
            "cols": draw(st.sampled_from([[0], [0, 1], [0, 1, 2], [2]])), "td": draw(st.booleans()), "ops": ops}


def check_generic(case, ctx):
    """generic tables hold DataFrames; copies and conversions must not share them"""
    import pandas as pd
    from ticdat import TicDatFactory, PanDatFactory
    tdf, pdf = TicDatFactory(g="*", t=[["k"], ["v"]]), PanDatFactory(g="*", t=[["k"], ["v"]])
    cols = ["c%s" % i for i in case["cols"]]
    src = pd.DataFrame([[r[i] for i in case["cols"]] for r in case["rows"]], columns=cols)
    model = {c: list(src[c]) for c in cols}
    live = [["df", src, model]]
    first = (tdf.TicDat if case["td"] else pdf.PanDat)(g=src)
    live.append(["td" if case["td"] else "pd", first, {c: list(v) for c, v in model.items()}])
    edits = 0
    for op, w, i, v in case["ops"]:
        kind, obj, m = live[w % len(live)]
        df = obj if kind == "df" else obj.g
        cp = {c: list(x) for c, x in m.items()}
        n = len(case["rows"])
        c = list(m)[v % len(m)]
        if op == "copy" and kind != "df":
            live.append([kind, tdf.copy_tic_dat(obj) if kind == "td" else pdf.copy_pan_dat(obj), cp])
        elif op == "frozen" and kind == "td":
            live.append([kind, tdf.copy_tic_dat(obj, freeze_it=True), cp])
        elif op == "convert" and kind != "df":
            new = pdf.copy_to_tic_dat(obj) if kind == "pd" else tdf.copy_to_pandas(obj, reset_index=True)
            live.append(["td" if kind == "pd" else "pd", new, cp])
        elif op == "construct":
            new = tdf.TicDat(g=df) if v % 2 else pdf.PanDat(g=df)
            live.append(["td" if v % 2 else "pd", new, cp])
        elif op in ("loc", "iloc", "values"):
            new = 40 + v if c != "c2" else "w%s" % v
            if op == "loc":
                df.loc[i % n, c] = new
            elif op == "iloc":
                df.iloc[i % n, list(df.columns).index(c)] = new
            else:
                df[c].values[i % n] = new
            m[c][i % n] = new
            edits += 1
        elif op == "column":
            new = "n%s" % v
            df[new] = v
            m[new] = [v] * n
            edits += 1
        for k, o, want in live:
            got = o if k == "df" else o.g
            require(isinstance(got, pd.DataFrame) and list(got.columns) == list(want) and
                    all([gen.norm(x) for x in got[c]] == [gen.norm(x) for x in want[c]] for c in want),
                    "after %s on a %s: generic table of a %s is %s, expected %s", op, kind, k,
                    got.to_dict("list") if hasattr(got, "to_dict") else got, want)
    if edits and len(live) > 2:
        ctx.nontrivial("edited")


FACETS = [
    Facet("copies", check_copies, _copy_case, quick=4000, rule="at least one copy and one mutation on non-empty data"),
    Facet("generic", check_generic, _generic_case, quick=1000, rule="at least one edit with three live objects"),
    Facet("purity", check_pure, _pure_case, quick=4000, rule="non-empty data; calls counted in labels when they returned"),
]
