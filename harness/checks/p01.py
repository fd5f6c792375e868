import datetime
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, Violation, require, require_eq, fail, interpreting

TECHNIQUE = "differential construction in every documented shape against a plain-list model, plus malformed shapes"
NOTE = "Explores random schemas, defaults and rows in each shape; every shape must give the model's keys and values, every corruption must be rejected. Trusts pandas for building the input frames."

KEY_KINDS = ["int", "str", "float", "mixed"]
ODD = st.sampled_from([float("nan"), float("inf"), -gen.INF, True, False, None, 2, "x", datetime.datetime(2020, 1, 2, 3)])
SHAPES_KEYED = ["dict_dict", "dict_list", "dict_scalar", "list_tuple", "list_dict", "df_cols", "df_index", "series",
                "ticdat", "key_set"]
SHAPES_KEYLESS = ["list_dict", "list_list", "list_scalar", "df_cols", "tuple_rows", "ticdat"]


def _shapes(pks, dfs):
    n, m = len(pks), len(dfs)
    if not n:
        out = ["list_dict", "list_list", "df_cols", "tuple_rows", "ticdat"] + (["list_scalar"] if m == 1 else [])
        if "name" in dfs:
            out.remove("df_cols")
        return out
    out = ["dict_dict", "dict_list", "list_tuple", "list_dict", "df_cols", "df_index", "ticdat"]
    if m == 1:
        out += ["dict_scalar", "series"]
    if m == 0:
        out += ["key_set"]
        out.remove("df_index")
    if "name" in dfs or ("name" in pks and n > 1):
        out = [s for s in out if s not in ("df_cols", "df_index", "series")]
    return out


@st.composite
def _case(draw):
    tabs = draw(gen.tables(1, 3, fpool=gen.FIELD_NAMES + ["name"]))
    spec = {"tables": tabs, "defaults": {}}
    for t, (pks, dfs) in tabs.items():
        for f in (pks if draw(st.integers(0, 5)) == 0 else []) + list(dfs):
            if draw(st.booleans()):
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([1, -2.5, "d", "", None, True, 7]))
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks:
            cells[t, f] = gen.key_values(draw(st.sampled_from(KEY_KINDS)))
        for f in dfs:
            cells[t, f] = draw(st.sampled_from([gen.small_ints, gen.finite_floats, gen.strings,
                                                st.one_of(gen.small_ints, gen.strings, st.none()), ODD]))
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5))
    shape, omit = {}, {}
    for t, (pks, dfs) in tabs.items():
        shape[t] = draw(st.sampled_from(_shapes(pks, dfs) + ["absent"]))
        if shape[t] in ("df_cols", "df_index"):
            o = draw(st.lists(st.sampled_from(dfs), unique=True, max_size=len(dfs))) if dfs and draw(st.booleans()) else []
            omit[t] = [o] * len(data[t])
        elif shape[t] in ("dict_dict", "list_dict"):
            omit[t] = [draw(st.lists(st.sampled_from(dfs), unique=True, max_size=len(dfs)))
                       if dfs and draw(st.booleans()) else [] for _ in data[t]]
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        t = draw(st.sampled_from(sorted(tabs)))
        pks, dfs = tabs[t]
        key = [draw(cells[t, f]) for f in pks]
        part = {f: draw(cells[t, f]) for f in dfs if draw(st.booleans())}
        kind = draw(st.sampled_from(["assign", "touch", "assign_list", "cell", "delete", "update", "update_pairs",
                                     "ior", "setdefault", "setdefault_bare", "assign_row"] if pks else
                                    ["append_row", "append", "append_list", "setitem", "cell", "delete", "insert", "extend", "iadd"]))
        full = [draw(cells[t, f]) for f in dfs]
        ops.append([kind, t, key, part, full, draw(st.integers(0, 9))])
    return {"spec": spec, "data": data, "shape": shape, "omit": omit, "ops": ops}


def _default(spec, t, f):
    return spec["defaults"].get(t, {}).get(f, 0)


def _arg(case, t, tdf):
    """constructor argument and the expected rows"""
    import pandas as pd
    spec, rows, shape = case["spec"], case["data"][t], case["shape"][t]
    pks, dfs = spec["tables"][t]
    n, m = len(pks), len(dfs)
    omit = case["omit"].get(t) or [[] for _ in rows]
    exp = []
    for r, o in zip(rows, omit):
        exp.append(list(r[:n]) + [_default(spec, t, f) if f in o else v for f, v in zip(dfs, r[n:])])
    dd = [{f: v for f, v in zip(dfs, r[n:]) if f not in o} for r, o in zip(rows, omit)]
    key = [r[0] if n == 1 else tuple(r[:n]) for r in rows]
    if shape == "absent":
        return None, []
    if shape == "dict_dict":
        return dict(zip(key, dd)), exp
    if shape == "dict_list":
        return {k: list(r[n:]) for k, r in zip(key, rows)}, exp
    if shape == "dict_scalar":
        return {k: r[n] for k, r in zip(key, rows)}, exp
    if shape == "list_tuple":
        if n + m == 1:
            return [r[0] for r in rows], exp
        return [tuple(r) for r in rows], exp
    if shape == "tuple_rows":
        return tuple(tuple(r) for r in rows), exp
    if shape == "list_list":
        return [list(r) for r in rows], exp
    if shape == "list_scalar":
        return [r[0] for r in rows], exp
    if shape == "key_set":
        return list(key), exp
    if shape == "list_dict":
        return [dict(list(zip(pks, r[:n])) + list(d.items())) for r, d in zip(rows, dd)], exp
    if shape == "ticdat":
        return getattr(tdf.TicDat(**{t: gen.td_table(spec, t, rows)}), t), exp
    o = omit[0] if omit else []
    df = pd.DataFrame([list(r) for r in rows], columns=list(pks) + list(dfs))
    if shape == "df_cols":
        return df[[c for c in df.columns if c not in o]], exp
    if shape == "df_index":
        df = df[[c for c in df.columns if c not in o]]
        return df.set_index(list(pks)), exp
    if shape == "series":
        s = df.set_index(list(pks))[dfs[0]]
        return s.rename([dfs[0], None, "unrelated"][len(rows) % 3]), exp  # the name of a series does not matter
    raise AssertionError(shape)


def _shot(a):
    """a deep description of a constructor argument"""
    if hasattr(a, "iloc"):
        return (list(map(repr, getattr(a, "columns", [getattr(a, "name", None)]))), list(map(repr, a.index)),
                repr(a.values.tolist()), list(a.index.names))
    return repr(a)


def _assert_content(spec, dat, exp, what, framed=()):
    """framed: tables that came from pandas objects, which may turn None into nan"""
    got = gen.td_content(spec, dat)
    for t in set(spec["tables"]) - set(framed):
        n = len(spec["tables"][t][0])
        nones = lambda rows: sorted(repr((gen.norm_rows([r[:n]]), [c is None for c in r])) for r in rows)
        if len(got[t]) == len(exp[t]):
            require_eq(nones(got[t]), nones(exp[t]), "%s: cells of %s that are None" % (what, t))
    for t in spec["tables"]:
        pks, dfs = spec["tables"][t]
        if pks:
            g, e = gen.keyed(spec, t, got[t]), gen.keyed(spec, t, exp[t])
            require(g == e, "%s: table %s is %s, expected %s", what, t, g, e)
            require(len(getattr(dat, t)) == len(exp[t]), "%s: table %s length", what, t)
            for k, r in getattr(dat, t).items():
                require(tuple(r.keys()) == tuple(dfs) if dfs else len(r) == 0, "%s: row of %s has fields %s", what, t,
                        list(r.keys()))
                require(k in getattr(dat, t), "membership")
        else:
            g, e = gen.norm_rows(got[t]), gen.norm_rows(exp[t])
            require(g == e, "%s: keyless table %s is %s, expected %s (in order)", what, t, g, e)


def check(case, ctx):
    spec = case["spec"]
    tdf = gen.tdf_of(spec)
    args, exp = {}, {}
    for t in spec["tables"]:
        a, e = _arg(case, t, tdf)
        exp[t] = e
        if a is not None:
            args[t] = a
    before = {t: _shot(a) for t, a in args.items()}
    dat = tdf.TicDat(**args)
    for t, a in args.items():
        require(_shot(a) == before[t], "the constructor changed the %s it was given for %s: %s", case["shape"][t], t, a)
    framed = [t for t, s in case["shape"].items() if s in ("df_cols", "df_index", "series")]
    _assert_content(spec, dat, exp, "after construction", framed)
    # a copy built from the TicDat's own tables
    _assert_content(spec, tdf.TicDat(**{t: getattr(dat, t) for t in spec["tables"]}), exp, "rebuilt from a TicDat", framed)
    _assert_content(spec, tdf.TicDat(**tdf.as_dict(dat)), exp, "rebuilt from as_dict", framed)
    # later changes of the source do not matter
    for t, a in args.items():
        if hasattr(a, "columns"):
            for c in list(a.columns):
                a[c] = -99
        elif hasattr(a, "iloc"):
            a[:] = -99
        elif hasattr(a, "keys"):
            for k in list(a):
                r = a[k]
                if hasattr(r, "keys"):
                    for f in list(r):
                        r[f] = -99
                elif isinstance(r, list):
                    r[:] = [-99] * len(r)
            a.pop(next(iter(a)), None) if len(a) else None
        elif isinstance(a, list) and a:
            for r in a:
                if isinstance(r, list):
                    r[:] = [-99] * len(r)
                elif isinstance(r, dict):
                    for f in r:
                        r[f] = -99
            a.pop()
    _assert_content(spec, dat, exp, "after changing the constructor's arguments", framed)
    # later additions
    for kind, t, key, part, full, i in case["ops"]:
        pks, dfs = spec["tables"][t]
        n = len(pks)
        tbl = getattr(dat, t)
        k = key[0] if n == 1 else tuple(key)
        prow = [part.get(f, _default(spec, t, f)) for f in dfs]
        if pks:
            nk = lambda r: tuple(gen.norm(c) for c in r[:n])
            hit = [j for j, r in enumerate(exp[t]) if nk(r) == nk(key)]
        if kind in ("assign_row", "append_row"):  # a row of the table itself; the rows stay independent
            if exp[t]:
                j = i % len(exp[t])
                src, row = (tbl[exp[t][j][0] if n == 1 else tuple(exp[t][j][:n])] if pks else tbl[j]), list(exp[t][j])
                if kind == "assign_row":
                    tbl[k] = src
                elif i % 2:
                    tbl[(i + 1) % len(exp[t])] = src
                else:
                    tbl.append(src)
                for f in dfs:
                    src[f] = full[dfs.index(f)]
                exp[t][j] = row[:n] + full
                if kind == "append_row":
                    if i % 2:
                        exp[t][(i + 1) % len(exp[t])] = row
                    else:
                        exp[t].append(row)
                    continue
                if hit:
                    exp[t][hit[0]] = key + row[n:]
                else:
                    exp[t].append(key + row[n:])
            continue
        held = tbl[k] if pks and hit and kind.startswith("assign") else None
        was = None if held is None else dict(held)
        if kind == "assign":
            tbl[k] = part
            new = key + prow
        elif kind == "assign_list":
            tbl[k] = full
            new = key + full
        elif kind == "touch":
            got = tbl[k]
            new = exp[t][hit[0]] if hit else key + [_default(spec, t, f) for f in dfs]
            require(gen.norm_rows([[got[f] for f in dfs]]) == gen.norm_rows([new[n:]]), "touching %s[%s] gave %s", t, k,
                    got)
        elif kind == "cell" and pks:
            if not dfs:
                continue
            f = dfs[i % len(dfs)]
            tbl[k][f] = full[i % len(dfs)]
            new = list(exp[t][hit[0]]) if hit else key + [_default(spec, t, g) for g in dfs]
            new[n + i % len(dfs)] = full[i % len(dfs)]
        elif kind == "delete" and pks:
            if not hit:
                continue
            del tbl[k]
            exp[t].pop(hit[0])
            continue
        elif kind == "append":
            tbl.append(part)
            exp[t].append(prow)
            continue
        elif kind in ("update", "update_pairs", "ior"):
            two = bool(i % 2) and bool(exp[t])  # an existing row gets new values by the same call
            rows = [(key, full if i % 3 else part)]
            if two and not (hit and hit[0] == 0):
                rows.append((exp[t][0][:n], part))
            arg = [(r[0][0] if n == 1 else tuple(r[0]), r[1]) for r in rows]
            if kind == "ior":
                tbl |= dict(arg)
            else:
                tbl.update(dict(arg) if kind == "update" else arg)
            if len(rows) > 1:
                exp[t][0] = list(exp[t][0][:n]) + prow
            new = key + (full if i % 3 else prow)
        elif kind.startswith("setdefault"):
            got = tbl.setdefault(k) if kind == "setdefault_bare" else tbl.setdefault(k, full if i % 2 else part)
            new = exp[t][hit[0]] if hit else key + ([_default(spec, t, f) for f in dfs] if kind == "setdefault_bare"
                                                    else full if i % 2 else prow)
            require(gen.norm_rows([[got[f] for f in dfs]]) == gen.norm_rows([new[n:]]), "%s of %s[%s] gave %s", kind, t,
                    k, got)
        elif kind in ("extend", "iadd"):
            if kind == "extend":
                tbl.extend([part, full])
            else:
                tbl += [part, full]
            exp[t] += [prow, full]
            continue
        elif kind == "append_list":
            tbl.append(full)
            exp[t].append(full)
            continue
        elif kind == "insert":
            tbl.insert(i, part)
            exp[t].insert(i, prow)
            continue
        elif kind == "setitem":
            if exp[t]:
                tbl[i % len(exp[t])] = part
                exp[t][i % len(exp[t])] = prow
            continue
        elif kind == "cell":
            if exp[t]:
                j, f = i % len(exp[t]), i % len(dfs)
                tbl[j][dfs[f]] = full[f]
                exp[t][j] = list(exp[t][j])
                exp[t][j][f] = full[f]
            continue
        elif kind == "delete":
            if exp[t]:
                del tbl[i % len(exp[t])]
                exp[t].pop(i % len(exp[t]))
            continue
        require(held is None or dict(held) == was, "assigning %s[%s] changed the row that was there before: %s", t, k, held)
        if hit:
            exp[t][hit[0]] = new
        else:
            exp[t].append(new)
    _assert_content(spec, dat, exp, "after later additions", framed)
    if sum(map(len, case["data"].values())):
        ctx.nontrivial("has rows")
        for t, s in case["shape"].items():
            ctx.label("shape " + s)
        if any(any(o) for o in case["omit"].values()):
            ctx.label("omits fields")


# ------------------------------------------------------------------ malformed
BAD = ["unknown_table", "unknown_field", "long_row", "short_row", "long_key", "short_key", "list_long", "list_short",
       "list_unknown_field", "df_no_key", "scalar_row", "row_dict_key_in_dict"]


@st.composite
def _bad_case(draw):
    tabs = draw(gen.tables(1, 2))
    spec = {"tables": tabs, "defaults": {}}
    cell = lambda t, f: st.integers(0, 9)
    data = draw(gen.data_for(spec, cell, 1, 4))
    t = draw(st.sampled_from(sorted(tabs)))
    return {"spec": spec, "data": data, "t": t, "bad": draw(st.sampled_from(BAD)), "i": draw(st.integers(0, 9))}


def check_bad(case, ctx):
    import pandas as pd
    spec, t, bad, i = case["spec"], case["t"], case["bad"], case["i"]
    tdf = gen.tdf_of(spec)
    pks, dfs = spec["tables"][t]
    n, m = len(pks), len(dfs)
    args = {u: gen.td_table(spec, u, rows) for u, rows in case["data"].items()}
    tdf.TicDat(**args)  # is fine
    a = args[t]
    rows = case["data"][t]
    j = i % len(rows)
    if bad == "unknown_table":
        args["nosuch"] = []
    elif bad == "unknown_field":
        if n:
            a[gen.pk_of(spec, t, rows[j])]["nosuch"] = 1
        else:
            a[j]["nosuch"] = 1
    elif bad in ("long_row", "short_row"):
        d = 1 if bad == "long_row" else -1
        if m + d < 0 or (m + d == 0 and m == 1 and False):
            return
        if n:
            a[gen.pk_of(spec, t, rows[j])] = [1] * (m + d)
        else:
            a[j] = [1] * (m + d)
    elif bad in ("long_key", "short_key"):
        if not n:
            return
        k = gen.pk_of(spec, t, rows[j])
        r = a.pop(k)
        k = (k,) if n == 1 else k
        if bad == "long_key":
            a[k + (1,)] = r
        else:
            if n == 1:
                return
            a[k[:-1] if n > 2 else k[0]] = r
    elif bad in ("list_long", "list_short"):
        if n + m == 1:
            return
        rr = [tuple(r) for r in rows]
        rr[j] = rr[j] + (1,) if bad == "list_long" else rr[j][:-1]
        args[t] = rr
    elif bad == "list_unknown_field":
        rr = [gen.row_dict(spec, t, r) for r in rows]
        rr[j]["nosuch"] = 3
        args[t] = rr
    elif bad == "df_no_key":
        if not n:
            return
        args[t] = pd.DataFrame([r[1:] for r in rows], columns=(list(pks) + list(dfs))[1:])
    elif bad == "scalar_row":
        if m == 1:
            return
        if n:
            a[gen.pk_of(spec, t, rows[j])] = 5
        else:
            a[j] = 5
    elif bad == "row_dict_key_in_dict":
        if not n:
            return
        a[gen.pk_of(spec, t, rows[j])][pks[0]] = 1
    try:
        d = tdf.TicDat(**args)
    except Exception:
        ctx.nontrivial("rejected " + bad)
        return
    fail("malformed data (%s in table %s) was accepted: %r" % (bad, t, gen.td_content(spec, d)))


@st.composite
def _index_case(draw):
    tabs = draw(gen.tables(1, 1, max_pk=3, max_df=2, keyless=False))
    spec = {"tables": tabs, "defaults": {}}
    cells = {(t, f): gen.key_values(draw(st.sampled_from(["int", "str"]))) for t, v in tabs.items() for f in v[0] + v[1]}
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 1, 5))
    fs = sum(list(tabs.values())[0], [])
    return {"spec": spec, "data": data, "index": draw(st.permutations(fs))[:draw(st.integers(1, len(fs)))], "drop": draw(st.booleans()),
            "cols": draw(st.permutations(fs))}


def check_index(case, ctx):
    """a frame indexed by any of its fields in any order is read correctly or refused"""
    import pandas as pd
    from ticdat.utils import TicDatError
    spec, data = case["spec"], case["data"]
    (t, (pks, dfs)), = spec["tables"].items()
    tdf = gen.tdf_of(spec)
    df = pd.DataFrame([list(r) for r in data[t]], columns=pks + dfs)[list(case["cols"])].set_index(list(case["index"]), drop=case["drop"])
    have = set(df.columns)
    fine = set(pks) <= have or case["index"] == pks
    try:
        dat = tdf.TicDat(**{t: df})
    except TicDatError:
        require(not fine, "a frame with index %s and columns %s was refused for the primary key %s", case["index"], list(df.columns), pks)
        ctx.label("refused")
        return
    with interpreting("table"):
        got = gen.td_content(spec, dat)
    want = data if set(dfs) <= have else {t: [r[:len(pks)] + [c if f in have else 0 for f, c in zip(dfs, r[len(pks):])] for r in data[t]]}
    require_eq(gen.diff_content(want, got), None, "TicDat from a frame indexed by %s" % case["index"])
    ctx.nontrivial("read")


FACETS = [
    Facet("indexes", check_index, _index_case, quick=500, rule="the frame was accepted"),
    Facet("shapes", check, _case, quick=8000, rule="at least one row; shapes and omissions counted in labels"),
    Facet("malformed", check_bad, _bad_case, quick=2400, rule="the corruption applies and was rejected"),
]
