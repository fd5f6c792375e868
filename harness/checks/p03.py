from hypothesis import strategies as st
from .. import gen
from .p07 import graph
from ..core import Facet, require, fail

TECHNIQUE = "generated attack sequences on frozen objects and schema views, each must raise and leave a deep snapshot unchanged"
NOTE = ("Explores random schemas (foreign key links on and off), data and sequences of every public mutating call on every "
        "reachable public object. Private attributes and DataFrames of generic tables are out of scope.")

DICT_ATTACKS = ["set_new", "set_existing", "del", "pop", "pop_missing_default", "popitem", "clear", "update", "update_kw",
                "setdefault", "ior", "attr", "unfreeze", "delattr"]
LIST_ATTACKS = ["append", "extend", "insert", "del", "pop", "setitem", "clear", "iadd", "reverse"]
ROW_ATTACKS = ["cell", "cell_all", "attr", "unfreeze", "delattr"]
DAT_ATTACKS = ["replace_table", "new_attr", "del_table", "unfreeze", "empty_table"]
VIEW_ATTACKS = ["set", "del", "pop", "popitem", "clear", "update", "setdefault", "ior", "attr"]
VIEWS = ["default_values", "data_types", "parameters", "tooltips", "primary_key_fields", "data_fields"]


@st.composite
def _case(draw):
    spec = draw(gen.full_spec(1, 4, full_pk=True, params=False, acyclic=draw(st.booleans())))
    spec["dups"] = "assert"
    cells = gen.general_cells(spec, draw)
    data = draw(gen.data_for(spec, lambda t, f: cells[t, f], 0, 5))
    ops = draw(st.lists(st.tuples(st.sampled_from(["dat", "table", "row", "link", "missing", "linkmissing"]),
                                  st.integers(0, 30), st.integers(0, 30), st.integers(0, 13)), min_size=4, max_size=14))
    return {"spec": spec, "data": data, "ops": [list(o) for o in ops], "links": draw(st.booleans()),
            "how": draw(st.sampled_from(["freeze_me", "copy", "twice"]))}


@st.composite
def _link_case(draw):
    """linked rows with children"""
    spec = draw(graph(keyless=False))
    fks = {(nt, ft, tuple(sorted(a for a, _ in m))): [nt, ft, m] for nt, ft, m in spec["fks"]}
    spec["fks"] = list(fks.values())  # one key for the same native fields
    data = draw(gen.data_for(spec, lambda t, f: st.integers(0, 2), 1, 5))
    data = draw(gen.adopt(spec, data))
    ops = draw(st.lists(st.tuples(st.sampled_from(["link", "link", "link", "linkmissing", "row", "table"]),
                                  st.integers(0, 30), st.integers(0, 30), st.integers(0, 13)), min_size=4, max_size=14))
    return {"spec": spec, "data": data, "ops": [list(o) for o in ops], "links": True, "how": draw(st.sampled_from(["freeze_me", "copy", "twice"]))}


def links_of(row):
    return {k: v for k, v in vars(row).items() if not k.startswith("_")}


def snapshot(spec, dat):
    """content, order, identity of tables, rows and link targets"""
    out = {}
    for t, (pks, dfs) in spec["tables"].items():
        tbl = getattr(dat, t)
        items = list(tbl.items()) if pks else list(enumerate(tbl))
        out[t] = (id(tbl), [(repr(k), id(r), [(f, repr(r[f])) for f in dfs],
                             sorted((n, id(l), [(repr(a), id(b)) for a, b in l.items()] if _is_link_dict(dat, l) else None)
                                    for n, l in links_of(r).items())) for k, r in items])
    out["attrs"] = sorted(k for k in vars(dat) if not k.startswith("_"))
    return out


def _is_link_dict(dat, l):
    return type(l).__name__ == "TicDatDict"


def _attack_dict(d, attack, k, sample_row, missing_key):
    if attack == "set_new":
        d[missing_key] = sample_row
    elif attack == "set_existing":
        d[k] = sample_row
    elif attack == "del":
        del d[k]
    elif attack == "pop":
        d.pop(k)
    elif attack == "pop_missing_default":
        d.pop(missing_key, None)
    elif attack == "popitem":
        d.popitem()
    elif attack == "clear":
        d.clear()
    elif attack == "update":
        d.update({missing_key: sample_row})
    elif attack == "update_kw":
        d.update({k: sample_row}, zzz=sample_row)
    elif attack == "setdefault":
        d.setdefault(missing_key, sample_row)
    elif attack == "ior":
        d |= {missing_key: sample_row}
    elif attack == "attr":
        d.some_attribute = 1
    elif attack == "unfreeze":
        d._dataFrozen = False
    elif attack == "delattr":
        del d._dataFrozen


def _attack_list(tbl, attack, row):
    if attack == "append":
        tbl.append(row)
    elif attack == "extend":
        tbl.extend([row])
    elif attack == "insert":
        tbl.insert(0, row)
    elif attack == "del":
        del tbl[0]
    elif attack == "pop":
        tbl.pop()
    elif attack == "setitem":
        tbl[0] = row
    elif attack == "clear":
        tbl.clear()
    elif attack == "iadd":
        tbl.__iadd__([row])
    elif attack == "reverse":
        tbl.reverse()


def _attack_row(row, attack, dfs, j):
    if attack == "cell" or (attack == "cell_all" and not dfs):
        row[dfs[j % len(dfs)] if dfs else "anything"] = 12345
    elif attack == "cell_all":
        for f in dfs:
            row[f] = "changed"
    elif attack == "attr":
        row.some_attribute = 1
    elif attack == "unfreeze":
        row._dataFrozen = False
    elif attack == "delattr":
        del row._dataFrozen


def _missing(pks, data_kind="k"):
    k = ["no such key %d" % i for i in range(len(pks))]
    return k[0] if len(k) == 1 else tuple(k)


def check(case, ctx):
    spec = case["spec"]
    tdf = gen.tdf_of(spec)
    if case["links"]:
        tdf.enable_foreign_key_links()
    src = gen.make_td(tdf, spec, case["data"])
    frozen = tdf.copy_tic_dat(src, freeze_it=True) if case["how"] == "copy" else tdf.freeze_me(src)
    if case["how"] == "twice":
        snap0 = snapshot(spec, frozen)
        again = tdf.freeze_me(frozen)
        require(again is frozen and snapshot(spec, frozen) == snap0, "freezing twice changed the object")
    d = gen.diff_content(case["data"], gen.td_content(spec, frozen))
    require(d is None, "content changed by freezing: %s", d)
    before = snapshot(spec, frozen)
    tnames = sorted(spec["tables"])
    did = set()
    for where, i, j, a in case["ops"]:
        t = tnames[i % len(tnames)]
        pks, dfs = spec["tables"][t]
        tbl = getattr(frozen, t)
        rows = list(tbl.values()) if pks else list(tbl)
        desc = None
        if where == "dat":
            attack = DAT_ATTACKS[a % len(DAT_ATTACKS)]
            desc = "%s of table %s" % (attack, t)

            def act():
                if attack == "replace_table":
                    setattr(frozen, t, {})
                elif attack == "new_attr":
                    frozen.brand_new = 1
                elif attack == "del_table":
                    delattr(frozen, t)
                elif attack == "unfreeze":
                    frozen._isFrozen = False
                else:
                    setattr(frozen, t, type(tbl)())
        elif where == "table" and pks:
            attack = DICT_ATTACKS[a % len(DICT_ATTACKS)]
            k = list(tbl)[j % len(tbl)] if tbl else _missing(pks)
            if attack == "popitem" and not tbl or attack == "delattr" and not tbl:
                continue
            if k == _missing(pks) and attack in ("del", "pop"):
                continue
            desc = "dict %s on table %s" % (attack, t)

            def act():
                _attack_dict(tbl, attack, k, {f: 5 for f in dfs}, _missing(pks))
        elif where == "table":
            attack = LIST_ATTACKS[a % len(LIST_ATTACKS)]
            if attack in ("del", "pop", "setitem") and not tbl:
                continue
            desc = "list %s on table %s" % (attack, t)

            def act():
                _attack_list(tbl, attack, {f: 5 for f in dfs})
        elif where == "row" and rows:
            attack = ROW_ATTACKS[a % len(ROW_ATTACKS)]
            desc = "row %s on table %s" % (attack, t)

            def act():
                _attack_row(rows[j % len(rows)], attack, dfs, j)
        elif where == "missing" and pks:
            _check_missing(tbl, _missing(pks), "table " + t)
            did.add("missing key")
        elif where in ("link", "linkmissing"):
            cands = [(n, l) for r in rows for n, l in sorted(links_of(r).items())]
            if not cands:
                continue
            n, l = cands[j % len(cands)]
            if not _is_link_dict(frozen, l):
                # one-to-one: the linked row itself
                desc = "row attack through one-to-one link %s" % n

                def act():
                    _attack_row(l, "cell", list(l.keys()), j)
            else:
                wrong = _link_missing(l, frozen, spec, n)
                if where == "linkmissing":
                    if wrong is not None:
                        _check_missing(l, wrong, "link %s of %s" % (n, t))
                        did.add("missing link key")
                    continue
                attack = DICT_ATTACKS[a % len(DICT_ATTACKS)]
                k = list(l)[j % len(l)] if l else None
                if not l and attack in ("del", "pop", "popitem", "set_existing", "update_kw"):
                    continue
                if wrong is None and attack in ("set_new", "pop_missing_default", "setdefault", "update", "ior"):
                    continue
                desc = "link dict %s on %s of table %s" % (attack, n, t)

                def act():
                    _attack_dict(l, attack, k, {}, wrong)
                did.add("link attack")
        if desc:
            try:
                act()
            except Exception:
                pass
            else:
                fail("%s on a frozen TicDat raised no error" % desc)
            did.add(where)
        after = snapshot(spec, frozen)
        require(before == after, "%s changed a frozen TicDat: before %s after %s", desc or where, before, after)
    # a non-frozen copy is fully editable
    cp = tdf.copy_tic_dat(frozen)
    for t, (pks, dfs) in spec["tables"].items():
        tbl = getattr(cp, t)
        if pks:
            k = _missing(pks)
            tbl[k] = {f: 1 for f in dfs}
            require(k in tbl and all(tbl[k][f] == 1 for f in dfs), "could not add a row to a copy of a frozen TicDat")
            for f in dfs:
                tbl[k][f] = 2
                require(tbl[k][f] == 2, "could not edit a copy of a frozen TicDat")
            del tbl[k]
            require(k not in tbl, "could not delete from a copy of a frozen TicDat")
            tbl.clear()
        else:
            tbl.append({f: 1 for f in dfs})
            tbl[-1][dfs[0]] = 2
            require(tbl[-1][dfs[0]] == 2, "could not edit a copy of a frozen TicDat")
            tbl.clear()
        require(len(tbl) == 0, "could not clear a copy of a frozen TicDat")
    cp.another_attribute = 1
    require(snapshot(spec, frozen) == before, "editing a copy changed the frozen TicDat")
    for d_ in did:
        ctx.label("attack " + d_)
    if did and any(case["data"].values()):
        ctx.nontrivial("attacked with data")


def _link_missing(l, dat, spec, name):
    for t in spec["tables"]:
        if name == t or name.startswith(t + "_"):
            pks = spec["tables"][t][0]
            break
    if not l:
        # key length of an empty link dict cannot be seen: use a plain key only
        return "no such key"
    k = next(iter(l))
    return tuple("no such %d" % i for i in range(len(k))) if isinstance(k, tuple) else "no such key"


def _check_missing(d, k, what):
    n = len(d)
    try:
        d[k]
    except KeyError:
        pass
    except Exception as e:
        fail("reading a missing key of frozen %s raised %s rather than KeyError" % (what, type(e).__name__))
    else:
        fail("reading a missing key of frozen %s raised no KeyError" % what)
    require(len(d) == n and k not in d, "reading a missing key changed frozen %s", what)


# ------------------------------------------------------------------------- schema views
@st.composite
def _view_case(draw):
    spec = draw(gen.full_spec(1, 3))
    ops = draw(st.lists(st.tuples(st.sampled_from(VIEWS + ["factory"]), st.sampled_from(VIEW_ATTACKS), st.booleans(),
                                  st.integers(0, 9)), min_size=2, max_size=10))
    return {"spec": spec, "ops": [list(o) for o in ops], "pd": draw(st.booleans())}


def _schema_snap(f):
    import json
    s = f.schema(include_ancillary_info=True)
    return repr(sorted((k, sorted(map(repr, (v.items() if hasattr(v, "items") else v))) if not isinstance(
        v, (str, int, float, bool, type(None))) else repr(v)) for k, v in s.items())) + repr(
        sorted((t, repr(d)) for t, d in f.default_values.items())) + repr(sorted(f.tooltips.items(), key=repr)) + repr(
        sorted(f.primary_key_fields.items())) + repr(sorted(f.data_fields.items()))


def check_views(case, ctx):
    spec = case["spec"]
    f = (gen.pdf_of if case["pd"] else gen.tdf_of)(spec)
    before = _schema_snap(f)
    hit = False
    for view, attack, inner, i in case["ops"]:
        if view == "factory" and case["pd"]:
            continue
        if view == "factory":
            def act():
                if attack in ("set", "attr", "update", "setdefault", "ior"):
                    f.all_tables = frozenset()
                elif attack in ("del", "pop"):
                    del f.all_tables
                else:
                    f._isFrozen = False
            desc = "assigning attributes of the factory"
        else:
            v = getattr(f, view)
            if inner and view in ("default_values", "data_types"):
                if not v:
                    continue
                v = v[sorted(v)[i % len(v)]]
            k = sorted(v, key=repr)[i % len(v)] if v else None
            if k is None and attack in ("del", "pop", "popitem"):
                continue
            desc = "%s on %s%s" % (attack, view, " (inner)" if inner else "")

            def act():
                if attack == "set":
                    v[k] = 1
                elif attack == "del":
                    del v[k]
                elif attack == "pop":
                    v.pop(k)
                elif attack == "popitem":
                    v.popitem()
                elif attack == "clear":
                    v.clear()
                elif attack == "update":
                    v.update({"zz": 1})
                elif attack == "setdefault":
                    v.setdefault("zz", 1)
                elif attack == "ior":
                    v.__ior__({"zz": 1})
                elif attack == "attr":
                    v.zz = 1
        hit = True
        try:
            act()
        except Exception:
            pass
        else:
            fail("%s raised no error" % desc)
        after = _schema_snap(f)
        require(after == before, "%s changed the factory's schema", desc)
    if hit:
        ctx.nontrivial("views attacked")


FACETS = [
    Facet("links", check, _link_case, quick=1000, rule="at least one attack on data that exists"),
    Facet("frozen", check, _case, quick=4000, rule="non-empty data and at least one attack performed; kinds in labels"),
    Facet("views", check_views, _view_case, quick=3000, rule="at least one attack on a schema view or the factory"),
]
