"""
Generators of schemas ("specs"), rows and data, as plain python values; and builders turning specs into factories.

spec = {"tables": {t: [[pk fields], [data fields]]}, "fks": [[native, foreign, [[nf, ff], ...]]],
        "types": {t: {f: [9 entries]}}, "defaults": {t: {f: v}}, "params": {name: [type or None, default]},
        "tooltips": {t: {f or "": tip}}, "inf": ..., "xlsx": ..., "dups": ..., "munge": bool, "gens": [..]}
data = {t: [[pk values + data values], ...]}
"""
from hypothesis import strategies as st
import datetime

INF = float("inf")
TABLE_NAMES = ["foods", "categories", "nutrition_quantities", "a", "bb", "Sites", "myTable", "cost_curve", "T1",
               "plan_x_y", "zeta", "flows", "Arc_Data", "q", "supply2", "long_table_name_with_many_words",
               "foods_by_site", "cost", "q_a"]
FIELD_NAMES = ["key", "qty", "cost", "min nutrition", "Max_Nutrition", "x", "y1", "from", "to", "Supply Amount", "code",
               "id_no", "label", "w_1", "Group", "unit cost per lb", "other", "z z", "kind", "level", "Name"]
STRINGS = ["", "a", "A", "b", "bb", "chicken", "hot dog", "x,y", "1", "2.5", "é", "日本", "north-east", "c d", "inf",
           "True", "None", "nan", "-3", "0", "z"]


def ident_tables(lo=1, hi=4, pool=TABLE_NAMES):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique_by=lambda s: s.lower())


def canon(s):
    return s.lower().replace(" ", "_")


def fields(lo, hi, pool=FIELD_NAMES):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique_by=canon)


@st.composite
def tables(draw, lo=1, hi=4, max_pk=3, max_df=3, pool=TABLE_NAMES, fpool=FIELD_NAMES, keyless=True):
    out = {}
    for t in draw(ident_tables(lo, hi, pool)):
        fs = draw(fields(1, max_pk + max_df, fpool))
        k_lo = 0 if keyless else 1
        k_lo = max(k_lo, len(fs) - max_df)
        k = draw(st.integers(k_lo, min(max_pk, len(fs))))
        out[t] = [fs[:k], fs[k:]]
    return out


small_ints = st.integers(-3, 12)
finite_floats = st.one_of(st.sampled_from([0.5, -0.25, 1e-9, 2.75, 1e15, 123456.789, -0.0, 1.0, 3.0]),
                          st.floats(allow_nan=False, allow_infinity=False, width=32).map(float),
                          st.floats(allow_nan=False, allow_infinity=False, min_value=-1e12, max_value=1e12))
strings = st.one_of(st.sampled_from(STRINGS), st.text("abcXYZ 12_,;'\"-é", max_size=6))
numbers = st.one_of(small_ints, finite_floats)


def key_values(kind):
    """hashable key values of one kind"""
    return {"int": st.integers(-3, 8), "str": st.sampled_from(["a", "b", "c", "d", "aa", "x y", "1", "Ab", "é", "2"]),
            "float": st.sampled_from([0.5, 1.5, 2.0, -1.25, 3.0, 1e9]),
            "mixed": st.one_of(st.integers(0, 4), st.sampled_from(["a", "b", "c", "1"]))}[kind]


@st.composite
def type_rule(draw, datetime_ok=True, inf_ok=True):
    """9 arguments of set_data_type after (table, field)"""
    if datetime_ok and draw(st.integers(0, 7)) == 0:
        return [True, True, False, 0, INF, False, [], draw(st.booleans()), True]
    number_allowed = draw(st.booleans()) or draw(st.booleans())
    bounds = st.sampled_from([-INF, -10, -1, -0.5, 0, 0.5, 1, 2, 3, 5, 10, 100, 1e6, INF])
    a, b = draw(bounds), draw(bounds)
    if a > b:
        a, b = b, a
    if draw(st.integers(0, 3)) == 0:
        a, b = 0, INF
    strings_allowed = draw(st.one_of(st.just("*"), st.just([]), st.just([]),
                                     st.lists(st.sampled_from(["a", "b", "chicken", "1", "", "é", " a", "A"]), max_size=3,
                                              unique=True),
                                     st.just(["w%s" % i for i in range(13)] + ["a"])))
    return [number_allowed, draw(st.booleans()), draw(st.booleans()), a, b, draw(st.booleans()), strings_allowed,
            draw(st.booleans()), False]


@st.composite
def fk_list(draw, tabs, n_max=4, acyclic=True, full_pk=None, allow_self=False):
    """foreign keys over tabs. full_pk True: foreign fields are exactly the foreign primary key"""
    names = list(tabs)
    out = []
    for _ in range(draw(st.integers(0, n_max))):
        i, j = draw(st.integers(0, len(names) - 1)), draw(st.integers(0, len(names) - 1))
        if acyclic:
            if i == j:
                continue
            i, j = min(i, j), max(i, j)
        elif i == j and not allow_self:
            continue
        nt, ft = names[i], names[j]
        to_pk = draw(st.integers(0, 3)) > 0 if full_pk is None else full_pk
        ffs = list(tabs[ft][0]) if to_pk and tabs[ft][0] else None
        nfs = tabs[nt][0] + tabs[nt][1]
        if full_pk and not ffs:
            continue
        if ffs is None:
            allf = tabs[ft][0] + tabs[ft][1]
            k = draw(st.integers(1, min(len(allf), len(nfs), 3)))
            ffs = draw(st.permutations(allf))[:k]
        if len(ffs) > len(nfs):
            continue
        ns = draw(st.permutations(nfs))[:len(ffs)]
        ffs = draw(st.permutations(ffs))
        mapping = [[a, b] for a, b in zip(ns, ffs)]
        if [nt, ft, mapping] not in out and not any(
                o[0] == nt and o[1] == ft and sorted(o[2]) == sorted(mapping) for o in out):
            out.append([nt, ft, mapping])
    return out


def apply_mapping(m):
    return tuple(m[0]) if len(m) == 1 else tuple(tuple(x) for x in m)


def build(spec, cls):
    f = cls(**{t: ("*" if v == "*" else [list(v[0]), list(v[1])]) for t, v in spec["tables"].items()})
    for t, d in (spec.get("types") or {}).items():
        for fld, args in d.items():
            f.set_data_type(t, fld, *args)
    for t, d in (spec.get("defaults") or {}).items():
        for fld, v in d.items():
            f.set_default_value(t, fld, v)
    for nt, ft, m in spec.get("fks") or []:
        f.add_foreign_key(nt, ft, apply_mapping(m))
    for p, (ty, dv) in (spec.get("params") or {}).items():
        if ty is None:
            f.add_parameter(p, dv, enforce_type_rules=False)
        else:
            f.add_parameter(p, dv, *ty)
    for t, d in (spec.get("tooltips") or {}).items():
        for fld, tip in d.items():
            f.set_tooltip(t, fld, tip)
    if "inf" in spec:
        f.set_infinity_io_flag(spec["inf"])
    if "xlsx" in spec:
        f.set_xlsx_trailing_empty_rows(spec["xlsx"])
    if "dups" in spec:
        f.set_duplicates_ticdat_init(spec["dups"])
    if "munge" in spec:
        f.set_automunge_multitype_fields(spec["munge"])
    if spec.get("gens") and hasattr(f, "set_generator_tables"):
        f.set_generator_tables(spec["gens"])
    return f


def tdf_of(spec):
    from ticdat import TicDatFactory
    return build(spec, TicDatFactory)


def pdf_of(spec):
    from ticdat import PanDatFactory
    return build(spec, PanDatFactory)


def row_dict(spec, t, row):
    pks, dfs = spec["tables"][t]
    return dict(zip(list(pks) + list(dfs), row))


def pk_of(spec, t, row):
    n = len(spec["tables"][t][0])
    return row[0] if n == 1 else tuple(row[:n])


def td_table(spec, t, rows):
    """canonical constructor argument for a TicDat table"""
    pks, dfs = spec["tables"][t]
    n = len(pks)
    if not n:
        return [dict(zip(dfs, r)) for r in rows]
    return {pk_of(spec, t, r): dict(zip(dfs, r[n:])) for r in rows}


def make_td(tdf, spec, data):
    return tdf.TicDat(**{t: td_table(spec, t, rows) for t, rows in data.items()})


def make_pd(pdf, spec, data):
    import pandas as pd
    out = {}
    for t, rows in data.items():
        cols = list(spec["tables"][t][0]) + list(spec["tables"][t][1])
        out[t] = pd.DataFrame([list(r) for r in rows], columns=cols)
    return pdf.PanDat(**out)


def dress(dat, spec):
    """frames as a user may have left them: a surplus column in front, the columns in another order, an index that counts down"""
    for t, v in spec["tables"].items():
        if v != "*":
            df = getattr(dat, t)
            df = df[list(df.columns)[::-1]]
            df.insert(0, "surplus", 1)
            df.index = range(len(df) + 4, 4, -1)
            setattr(dat, t, df)
    return dat


@st.composite
def rows_for(draw, spec, t, cell, lo=0, hi=6, unique_pk=True):
    """cell(t, f) -> strategy"""
    pks, dfs = spec["tables"][t]
    fs = list(pks) + list(dfs)
    rs = draw(st.lists(st.tuples(*[cell(t, f) for f in fs]), min_size=lo, max_size=hi))
    out, seen = [], set()
    n = len(pks)
    for r in rs:
        if n and unique_pk:
            k = tuple(r[:n])
            if k in seen:
                continue
            seen.add(k)
        out.append(list(r))
    return out


@st.composite
def data_for(draw, spec, cell, lo=0, hi=6, unique_pk=True):
    return {t: draw(rows_for(spec, t, cell, lo, hi, unique_pk)) for t in spec["tables"] if spec["tables"][t] != "*"}


@st.composite
def adopt(draw, spec, data):
    """data whose orphaned rows mostly refer to some row of their parent tables instead"""
    data = {t: [list(r) for r in rows] for t, rows in data.items()}
    for nt, ft, m in spec["fks"] * 2:
        nfs, ffs = sum(spec["tables"][nt], []), sum(spec["tables"][ft], [])
        parents = [[p[ffs.index(b)] for _, b in m] for p in data[ft]]
        n = len(spec["tables"][nt][0])
        for r in data[nt]:
            if parents and [r[nfs.index(a)] for a, _ in m] not in parents:
                new = list(r)
                for (a, _), v in zip(m, draw(st.sampled_from(parents))):
                    new[nfs.index(a)] = v
                if not n or new[:n] == r[:n] or not any(x[:n] == new[:n] for x in data[nt]):
                    r[:] = new
    return data


# ---------------------------------------------------------------- reading data back out
def td_rows(spec, dat, t):
    """rows of a TicDat table as lists in field order (keyed tables in dict order)"""
    pks, dfs = spec["tables"][t]
    tbl = getattr(dat, t)
    if callable(tbl) and not hasattr(tbl, "__len__"):
        tbl = list(tbl())
    out = []
    if pks:
        for k, r in tbl.items():
            out.append((list(k) if len(pks) > 1 else [k]) + [r[f] for f in dfs])
    else:
        for r in tbl:
            out.append([r[f] for f in dfs])
    return out


def td_content(spec, dat):
    return {t: td_rows(spec, dat, t) for t in spec["tables"] if spec["tables"][t] != "*"}


def pd_rows(spec, dat, t):
    pks, dfs = spec["tables"][t]
    df = getattr(dat, t)
    return [list(r) for r in df[list(pks) + list(dfs)].itertuples(index=False, name=None)]


def pd_content(spec, dat):
    return {t: pd_rows(spec, dat, t) for t in spec["tables"] if spec["tables"][t] != "*"}


# ---------------------------------------------------------------- cell comparison
def is_null(x):
    if x is None:
        return True
    try:
        return x != x
    except Exception:
        return False


def norm(x, exact_types=True):
    """a comparable token of a cell. numbers compare by value; null is one token; strings never equal numbers"""
    import numbers, datetime as dt
    if x is None or (not isinstance(x, str) and type(x).__name__ in ("NaTType", "NAType")):
        return ("null",)
    if isinstance(x, bool) or type(x).__name__ == "bool_":
        return ("bool", bool(x))
    if isinstance(x, numbers.Number):
        f = float(x)
        if f != f:
            return ("null",)
        if f == int(f) if abs(f) != INF else False:
            return ("num", int(x) if isinstance(x, numbers.Integral) else int(f))
        return ("num", f)
    if isinstance(x, dt.datetime):
        return ("dt", x.isoformat())
    if isinstance(x, str):
        return ("str", x)
    return ("other", repr(x))


def norm_rows(rows):
    return [tuple(norm(c) for c in r) for r in rows]


def multiset(rows):
    d = {}
    for r in norm_rows(rows):
        d[r] = d.get(r, 0) + 1
    return d


def keyed(spec, t, rows):
    n = len(spec["tables"][t][0])
    return {r[:n]: r[n:] for r in norm_rows(rows)}


def diff_content(a, b):
    """None or a description of the first difference between two contents, as multisets of rows"""
    for t in sorted(set(a) | set(b)):
        x, y = multiset(a.get(t, [])), multiset(b.get(t, []))
        if x != y:
            gone = [(k, v) for k, v in x.items() if y.get(k, 0) != v][:3]
            new = [(k, v) for k, v in y.items() if x.get(k, 0) != v][:3]
            return "table %s differs: expected rows %s, found %s" % (t, gone, new)
    return None


# ---------------------------------------------------------------- a general-purpose full spec with data
@st.composite
def full_spec(draw, lo=1, hi=4, params=True, fks=True, acyclic=True, full_pk=None, types=True, datetime_ok=True,
              keyless=True, inf=True, gens=False, fpool=FIELD_NAMES):
    tabs = draw(tables(lo, hi, fpool=fpool, keyless=keyless))
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "params": {}, "tooltips": {}}
    if params and draw(st.integers(0, 2)) == 0:
        k, v = draw(fields(2, 2, fpool))
        tabs["parameters"] = [[k], [v]]
        for name in draw(st.lists(st.sampled_from(["Size", "tol", "Mode", "p q", "limit"]), unique=True, max_size=3)):
            spec["params"][name] = draw(param_decl())
    if fks:
        spec["fks"] = draw(fk_list({t: v for t, v in tabs.items() if t != "parameters"}, acyclic=acyclic,
                                   full_pk=full_pk))
    if types:
        for t, (pks, dfs) in tabs.items():
            for f in pks + dfs:
                if draw(st.integers(0, 2)) == 0 and not (t == "parameters" and f in dfs and spec["params"]):
                    spec["types"].setdefault(t, {})[f] = draw(type_rule(datetime_ok=datetime_ok))
    for t, (pks, dfs) in tabs.items():
        for f in dfs + (pks if draw(st.integers(0, 4)) == 0 else []):
            if draw(st.integers(0, 3)) == 0:
                spec["defaults"].setdefault(t, {})[f] = draw(st.sampled_from([0, 1, -2.5, "d", "", None, True, 7]))
        for f in [""] + pks + dfs:
            if draw(st.integers(0, 5)) == 0:
                spec["tooltips"].setdefault(t, {})[f] = draw(st.sampled_from(["tip", "a longer tip", "é\"'"]))
    if inf:
        spec["inf"] = draw(st.sampled_from(["N/A", "N/A", 1e6, 999, None]))
        if spec["inf"] is None:
            fix_none_flag(spec)
    spec["xlsx"] = draw(st.sampled_from(["prune", "ignore"]))
    spec["dups"] = draw(st.sampled_from(["assert", "warn", "ignore"]))
    spec["munge"] = draw(st.booleans())
    return spec


def fix_none_flag(spec):
    """a None flag is not allowed on fields admitting both infinities and not null: make those nullable"""
    for t, d in spec["types"].items():
        for f, ty in d.items():
            if ty[0] and not ty[8] and not ty[7] and ty[3] == -INF and ty[4] == INF:
                ty[7] = True


@st.composite
def param_decl(draw):
    k = draw(st.integers(0, 6))
    if k == 0:
        return [None, draw(st.sampled_from([1, "x", None, 2.5]))]
    if k == 1:
        return [[False, True, True, 0, INF, False, "*", draw(st.booleans()), False], draw(st.sampled_from(["a", "12"]))]
    if k == 2:
        return [[True, True, False, 0, INF, True, [], False, False], draw(st.integers(0, 5))]
    if k == 3:
        return [[True, True, True, -INF, INF, False, [], True, False], draw(st.sampled_from([None, -1, 2.5]))]
    if k == 4:
        return [[False, True, True, 0, INF, False, ["on", "off"], False, False], draw(st.sampled_from(["on", "off"]))]
    if k == 5:
        nullable = draw(st.booleans())
        return [[draw(st.booleans()), True, False, 0, INF, False, draw(st.sampled_from([[], "*"])), nullable, True],
                draw(st.sampled_from(DATES[:2] + ([None] if nullable else [])))]
    return [[True, True, False, 0, 10, False, ["auto"], False, False], draw(st.sampled_from(["auto", 3, 4.5]))]


def general_cells(spec, draw, nulls=True, inf=False, text=strings):
    """per field cell strategies: keys of one kind, data of one or mixed kind"""
    cells = {}
    for t, (pks, dfs) in spec["tables"].items():
        for f in pks:
            cells[t, f] = key_values(draw(st.sampled_from(["int", "str", "mixed"])))
        for f in dfs:
            opts = [small_ints, finite_floats, text, st.one_of(small_ints, text)]
            if nulls:
                opts.append(st.one_of(small_ints, text, st.none()))
            if inf:
                opts.append(st.one_of(small_ints, st.sampled_from([INF, -INF, 1e6, 1e7, -1e7, 999])))
            cells[t, f] = draw(st.sampled_from(opts))
    # native fields of foreign keys draw from the foreign field's pool so that keys match often
    for _ in range(3):
        for nt, ft, m in spec.get("fks") or []:
            for nf, ff in m:
                cells[nt, nf] = cells[ft, ff]
    return cells


# ---------------------------------------------------------------- independent reading of a data type rule
RULE_NAMES = ["number_allowed", "inclusive_min", "inclusive_max", "min", "max", "must_be_int", "strings_allowed",
              "nullable", "datetime"]


def normal_rule(r):
    """what a rule's 9 arguments mean once the documented don't-cares are ignored"""
    number, imin, imax, lo, hi, isint, strs, nullable, dt = r
    if dt:
        number, strs = False, []
    if not number:
        imin, imax, lo, hi, isint = True, True, 0, INF, False
    return (bool(number), bool(imin), bool(imax), lo, hi, bool(isint), strs if strs == "*" else tuple(strs),
            bool(nullable), bool(dt))


def rule_ok(r, v):
    """does value v satisfy the rule (documented meaning)? strings parseable as dates are given as ISO text here"""
    number, imin, imax, lo, hi, isint, strs, nullable, dt = normal_rule(r)
    if is_null(v):
        return nullable
    if dt:
        if isinstance(v, datetime.datetime):
            return True
        if isinstance(v, str):
            return looks_like_date(v)
        return False
    if isinstance(v, bool):
        return False
    if isinstance(v, (int, float)):
        if not number:
            return False
        if v < lo or v > hi or (v == lo and not imin) or (v == hi and not imax):
            return False
        if isint:
            if abs(v) == INF:
                return v == hi == INF and imax
            return v == int(v)
        return True
    if isinstance(v, str):
        return strs == "*" or v in strs
    return False


DATES = ["2019-03-04", "2020-02-29 13:45:00", "1999-12-31", "2021-07-08T09:10:11"]
NOT_DATES = ["not a date", "zzz", "2019-99-99", "maybe later"]


def looks_like_date(s):
    if s in DATES:
        return True
    if s in NOT_DATES or s in ("", "zz"):
        return False
    raise ValueError("oracle does not know whether %r is a date" % s)
