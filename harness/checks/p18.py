import csv, datetime, os
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail, interpreting
from .p14 import pretty
from .p17 import DT, within_flag

TECHNIQUE = ("write/read round trip over random schemas, type rules, defaults, infinity flags, data, csv dialects and header options for both factories; "
             "the written files parsed independently")
NOTE = ("Each field is given data its rule or default can tell apart, as documented: untyped TicDat keys come back as text; empty text and null are the "
        "same in csv; numeric-looking text needs a strings-only rule (or, for TicDat, a text default); PanDat text avoids pandas' NA words. "
        "PanDat numbers compare up to 1e-12, because pandas' csv parser is not exact.")
INF = gen.INF
NUMERIC_LOOKING = ["1", "007", "1.50", "1e5", "inf", "-inf", "nan", "1_000", " 2", "+3", "0"]
PLAIN = ["a", "b", "hot dog", "é", "日本", "x,y", '"', '""', 'q"q', "it's", "'", "a\nb", "a\r\nb", "c\rd", "\t", "tab\there", "back\\slash", ";", "#",
         " lead", "trail ", "\U0001f600", "true", "None", "x;y|z", ",", "\n", "a,\"b\"\n,c", "%s", "{}", "2020-01-01"]
NA_WORDS = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN", "None",
            "n/a", "nan", "null"}
NUMS = st.one_of(st.integers(-900, 900), st.sampled_from([0.5, 0.1, 1 / 3, -1e-7, 12.5, 2e10, -0.0]), st.floats(-900, 900))
BIGNUMS = st.one_of(NUMS, st.sampled_from([1e300, 2 ** 53, 1234567890123.5, 5e-324]))


def looks_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def text_pool(extra=True):
    words = PLAIN + (NUMERIC_LOOKING if extra else [])
    t = st.one_of(st.sampled_from(words), st.text(alphabet="ab1,;'\"\\ \n\r\té|", min_size=1, max_size=5))
    return t if extra else t.filter(lambda s: not looks_number(s))


ANY_TEXT, TEXT = text_pool(), text_pool(False)


@st.composite
def td_field(draw, is_pk, flag):
    """[type rule or None, default or "unset", strategy of cells that csv keeps]"""
    bounded = not isinstance(flag, str)
    infs = [INF, -INF]
    kinds = ["num", "numnull", "text", "text", "textnull", "both", "date", "int", "floor"]
    if is_pk:
        kinds = ["num", "text", "raw", "raw", "numdefault", "date", "both", "int", "floor"]
    else:
        kinds += ["untyped num", "untyped num", "untyped text", "none default", "text default"]
    k = draw(st.sampled_from(kinds))
    if k == "num":
        rule, cell = [True, True, True, -INF, INF, False, [], flag is None, False], BIGNUMS if flag == "N/A" else NUMS
        if flag is None and is_pk:
            rule = [True, True, True, -1e9, 1e9, False, [], False, False]
            cell = NUMS
        elif flag is not None:
            cell = st.one_of(cell, st.sampled_from(infs))
        return [rule, "unset", cell]
    if k == "numnull":
        return [[True, True, True, -INF, INF, False, [], True, False], "unset", st.one_of(NUMS, st.none())]
    if k == "text":
        return [[False, True, True, 0, INF, False, "*", False, False], "unset", st.one_of(ANY_TEXT, st.just(""))]
    if k == "textnull":
        return [[False, True, True, 0, INF, False, "*", True, False], "unset", st.one_of(ANY_TEXT, st.none())]
    if k == "both":
        if is_pk or draw(st.booleans()):
            rule = [True, True, True, -1e9, 1e9, False, "*", False, False]
            return [rule, "unset", st.one_of(NUMS, TEXT, st.just(""))]
        return [[True, True, True, -INF, INF, False, "*", True, False], "unset", st.one_of(NUMS, TEXT, st.none())]
    if k == "date":
        return [[True, True, True, 0, INF, False, [], not is_pk, True], "unset", st.sampled_from(DT if is_pk else DT + [None])]
    if k == "int":
        rule = [True, True, True, -1e9, 1e9, True, [], False, False]
        return [rule, "unset", st.integers(-900, 900)]
    if k == "floor":
        rule = [True, True, True, -2, INF, False, [], False, False]
        return [rule, "unset", st.one_of(st.integers(-2, 900), st.sampled_from([INF, 0.25]))]
    if k == "raw":
        return [None, "unset", st.one_of(ANY_TEXT, st.just(""))]
    if k == "numdefault":
        return [None, draw(st.sampled_from([0, 2.5])), st.one_of(NUMS, TEXT)]
    if k == "untyped num":
        return [None, draw(st.sampled_from(["unset", 0, 1.5, True])) if False else draw(st.sampled_from(["unset", 0, 1.5])),
                st.one_of(NUMS, st.sampled_from(infs)) if flag is not None else NUMS]
    if k == "untyped text":
        return [None, "unset", st.one_of(TEXT, st.just(""))]
    if k == "none default":
        return [None, None, st.one_of(ANY_TEXT, st.none())]
    return [None, "d", st.one_of(ANY_TEXT, st.just(""))]


DIALECTS = {"excel": None, "excel-tab": None, "unix": None,
            "vp_semi": dict(delimiter=";", quotechar="'", doublequote=True, lineterminator="\n"),
            "vp_esc": dict(delimiter="|", quotechar='"', doublequote=False, escapechar="\\", lineterminator="\r\n", quoting=csv.QUOTE_ALL),
            "vp_num": dict(delimiter=",", quotechar='"', quoting=csv.QUOTE_NONNUMERIC, lineterminator="\r\n")}


def register():
    for name, opts in DIALECTS.items():
        if opts and name not in csv.list_dialects():
            csv.register_dialect(name, **opts)


def spec_of(draw, field, keyless=True, max_tables=3):
    tabs = draw(gen.tables(1, max_tables, keyless=keyless))
    spec = {"tables": tabs, "fks": [], "types": {}, "defaults": {}, "munge": draw(st.booleans()),
            "inf": draw(st.sampled_from(["N/A", "N/A", 1e6, 999, None]))}
    cells = {}
    for t, (pks, dfs) in tabs.items():
        for f in pks + dfs:
            rule, default, cells[t, f] = draw(field(f in pks, spec["inf"]))
            if rule is not None:
                spec["types"].setdefault(t, {})[f] = rule
            if default != "unset":
                spec["defaults"].setdefault(t, {})[f] = default
    return spec, cells


def clean_data(draw, spec, cells, lo=0, hi=5):
    return within_flag(spec, draw(gen.data_for(spec, lambda t, f: cells[t, f], lo, hi)))


@st.composite
def _td(draw):
    spec, cells = spec_of(draw, td_field)
    data = clean_data(draw, spec, cells)
    if draw(st.integers(0, 3)) == 0:
        spec["gens"] = [t for t, v in spec["tables"].items() if not v[0] and draw(st.booleans())]
    generic = None
    if draw(st.integers(0, 4)) == 0:
        generic = [["c1", "c 2"], [[draw(st.integers(0, 3)), draw(st.sampled_from(["x", "y,z"]))] for _ in range(draw(st.integers(0, 3)))]]
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "dialect": draw(st.sampled_from(sorted(DIALECTS))), "header": bool(generic) or draw(st.integers(0, 3)) > 0,
            "pretty": draw(st.booleans()), "freeze": draw(st.booleans()), "generic": generic, "overwrite": draw(st.booleans())}


def is_num(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool)


def check_td(case, ctx):
    import pandas as pd
    register()
    spec, data = case["spec"], case["data"]
    tdf = gen.tdf_of(spec)
    extra = {"gen_t": pd.DataFrame(case["generic"][1], columns=case["generic"][0])} if case["generic"] else {}
    dat = tdf.TicDat(**{t: gen.td_table(spec, t, rows) for t, rows in data.items()}, **extra)
    d = os.path.join(ctx.tmpdir(), "out")
    kw = {} if case["dialect"] == "excel" else {"dialect": case["dialect"]}
    wkw = dict(kw)
    if not case["header"]:
        wkw["write_header"], kw["headers_present"] = False, False
    if case["pretty"]:
        wkw["case_space_table_names"] = True
    tdf.csv.write_directory(dat, d, **wkw)
    if case["overwrite"]:
        tdf.csv.write_directory(dat, d, allow_overwrite=True, **wkw)
    require_eq(gen.diff_content(data, gen.td_content(spec, dat)), None, "the data in memory after the write")
    # independent reading of the files
    name = pretty if case["pretty"] else (lambda t: t)
    files = sorted(name(t) + ".csv" for t in spec["tables"] if t != "gen_t" or len(extra["gen_t"]))
    require_eq(sorted(os.listdir(d)), files, "files written")
    opts = DIALECTS[case["dialect"]]
    for t, rows in data.items():
        with open(os.path.join(d, name(t) + ".csv"), newline="", encoding="utf-8") as fp:
            lines = list(csv.reader(fp, dialect=case["dialect"]))
        fs = sum(spec["tables"][t], [])
        if case["header"]:
            require_eq(lines[:1], [fs], "header of %s" % t)
            lines = lines[1:]
        require_eq(len(lines), len(rows), "lines of %s" % t)
        for line, row in zip(lines, rows):
            require_eq(len(line), len(fs), "columns of %s" % t)
            for v, c, f in zip(line, row, fs):
                if isinstance(c, str):
                    require_eq(v, c, "text stored in %s of %s" % (f, t))
                elif is_num(c) and abs(c) < INF:
                    require_eq(float(v), float(c), "number stored in %s of %s" % (f, t))
    if case["freeze"]:
        kw["freeze_it"] = True
    back = tdf.csv.create_tic_dat(d, **kw)
    msgs = []
    require(tdf.good_tic_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    require_eq(gen.diff_content(data, gen.td_content(spec, back)), None, "data read back")
    if extra and len(extra["gen_t"]):
        g = back.gen_t
        require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [case["generic"][0], gen.norm_rows(case["generic"][1])], "generic table read back")
        ctx.label("generic")
    if any(data.values()):
        ctx.nontrivial("rows")
        ctx.label(case["dialect"])
        if not case["header"]:
            ctx.label("no header")
        if spec.get("gens"):
            ctx.label("generator tables")


# ---------------------------------------------------------------- PanDat
@st.composite
def pd_field(draw, is_pk, flag):
    infs = [INF, -INF] if flag is not None else []
    kinds = ["num", "text", "int", "untyped text", "untyped num", "date"]
    if not is_pk:
        kinds += ["numnull", "textnull", "bool", "textnull2", "floor"]
    k = draw(st.sampled_from(kinds))
    na = lambda s: s not in NA_WORDS and "\r" not in s
    if k == "num":
        return [[True, True, True, -1e9 if flag is None else -INF, 1e9 if flag is None else INF, False, [], False, False], "unset",
                st.one_of(NUMS, st.sampled_from(infs + [1]))]
    if k == "text":
        return [[False, True, True, 0, INF, False, "*", draw(st.booleans()) and not is_pk, False], "unset", ANY_TEXT.filter(na)]
    if k == "int":
        return [[True, True, True, -1e9, 1e9, True, [], False, False], "unset", st.integers(-900, 900)]
    if k == "untyped text":
        return [None, "unset", st.sampled_from(["a", "b", "hot dog", "é", "x,y", '"', "a\nb", "it's", "日本"])]
    if k == "untyped num":
        return [None, "unset", st.one_of(NUMS, st.sampled_from(infs + [1]))]
    if k == "numnull":
        return [[True, True, True, -INF, INF, False, [], True, False], "unset", st.one_of(NUMS, st.none())]
    if k == "textnull":
        return [[False, True, True, 0, INF, False, "*", True, False], "unset", st.one_of(ANY_TEXT.filter(na), st.none())]
    if k == "bool":
        return [None, "unset", st.booleans()]
    if k == "textnull2":
        return [None, None, st.sampled_from(["a", "b c", None])]
    if k == "floor":
        return [[True, True, True, -2, INF, False, [], False, False], "unset", st.one_of(st.integers(-2, 900), st.sampled_from([INF, 0.25]))]
    return [[True, True, True, 0, INF, False, [], not is_pk, True], "unset", st.sampled_from(DT if is_pk else DT + [None])]


@st.composite
def _pd(draw):
    spec, cells = spec_of(draw, pd_field)
    data = clean_data(draw, spec, cells)
    # pandas skips lines that are empty, which is what a null in a table of one field is written as
    for t, v in spec["tables"].items():
        if len(v[0] + v[1]) == 1:
            data[t] = [r for r in data[t] if r[0] is not None and str(r[0]).strip()]
    generic = None
    if draw(st.integers(0, 4)) == 0:
        generic = [["c1", "c 2"], [[draw(st.integers(0, 3)), draw(st.sampled_from(["x", "y,z"]))] for _ in range(draw(st.integers(0, 3)))]]
        if draw(st.integers(0, 3)) == 0:
            generic = [[], []]
        spec["tables"]["gen_t"] = "*"
    return {"spec": spec, "data": data, "sep": draw(st.sampled_from([",", ",", ";", "\t", "|"])), "pretty": draw(st.booleans()),
            "quoting": draw(st.sampled_from([None, None, 1, 2])), "index": draw(st.booleans()), "encoding": draw(st.sampled_from([None, None, "utf-16", "utf-8-sig"])),
            "quotechar": draw(st.sampled_from([None, None, "'"])), "generic": generic, "extra": draw(st.booleans())}


def rows_differ(want, got):
    """None or the first difference, row by row, numbers compared up to 1e-12"""
    if len(want) != len(got):
        return "%s rows instead of %s" % (len(got), len(want))
    for i, (x, y) in enumerate(zip(want, got)):
        for a, b in zip(x, y):
            na, nb = gen.norm(a), gen.norm(b)
            if na != nb and not (na[0] == nb[0] == "num" and abs(na[1] - nb[1]) <= 1e-12 * min(abs(na[1]), abs(nb[1]))):
                return "row %s: expected %s, found %s" % (i, x, y)
    return None


def check_pd(case, ctx):
    import pandas as pd
    spec, data = case["spec"], case["data"]
    pdf = gen.pdf_of(spec)
    dat = gen.make_pd(pdf, spec, data)
    if case["generic"]:
        dat.gen_t = pd.DataFrame(case["generic"][1], columns=case["generic"][0])
    if case["extra"]:
        gen.dress(dat, spec)
    d = os.path.join(ctx.tmpdir(), "out")
    kw = {}
    for k in ("quoting", "encoding", "quotechar"):
        if case[k] is not None:
            kw[k] = case[k]
    if case["sep"] != ",":
        kw["sep"] = case["sep"]
    wkw = dict(kw)
    if case["index"]:
        wkw["index"] = True
    if case["pretty"]:
        wkw["case_space_table_names"] = True
    if kw.get("quoting") == 2:
        kw.pop("quoting")
    pdf.csv.write_directory(dat, d, **wkw)
    require_eq(gen.diff_content(data, gen.pd_content(spec, dat)), None, "the data in memory after the write")
    name = pretty if case["pretty"] else (lambda t: t)
    require_eq(sorted(os.listdir(d)), sorted(name(t) + ".csv" for t in spec["tables"]), "files written")
    if case["generic"] and case["index"]:
        kw["index_col"] = 0
    back = pdf.csv.create_pan_dat(d, **kw)
    msgs = []
    require(pdf.good_pan_dat_object(back, msgs.append), "what was read is not good: %s", msgs)
    require_eq({t: list(getattr(back, t).columns) for t in data}, {t: sum(spec["tables"][t], []) for t in data}, "columns read back")
    got = gen.pd_content(spec, back)
    for t in data:
        require_eq(rows_differ(data[t], got[t]), None, "data of %s read back" % t)
    if case["generic"] and (case["generic"][0] or not case["index"]):
        g = back.gen_t
        require_eq([list(g.columns), gen.norm_rows(g.values.tolist())], [case["generic"][0], gen.norm_rows(case["generic"][1])], "generic table read back")
        ctx.label("generic" if case["generic"][1] else "empty generic" if case["generic"][0] else "generic without columns")
    if any(data.values()):
        ctx.nontrivial("rows")


FACETS = [
    Facet("ticdat", check_td, _td, quick=3000, rule="a non-empty table was written and read"),
    Facet("pandat", check_pd, _pd, quick=1500, rule="a non-empty table was written and read"),
]
