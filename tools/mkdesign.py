"""tools/mkdesign.py: writes DESIGN.md from the checks' own declarations, the texts below and the planted bugs' results."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, ".deps"), os.environ.get("VERIF_REPO", "/repo")]
INTRO = """# Deciding the semantic properties of ticdat by property-based testing

(Written by tools/mkdesign.py from the checks' declarations and the texts in it; do not edit by hand.)

## The machinery

Everything here is generated-input search against explicit oracles; no property is decided by another technique.
`run.sh PID [--tier T] [--replay F] [--facet N] [--scale X] [--workers N]` runs one property's facets. A facet
(`harness/checks/pNN.py`) is either a Hypothesis strategy producing a *plain Python value* (schema spec, rows, options,
operation list) or an enumerated list of such values, with a check that builds the real factories from /repo's
working tree, drives the public API and compares with an independent oracle. The oracles are of four kinds: a naive
reference model on plain lists and dictionaries, an inverse or round trip, a differential between factories, formats
or solvers, and an invariant over a history of operations. Files are examined or produced with independent code (json,
csv, sqlite3, openpyxl, xlrd/xlwt, direct SQL), so that a writer and a reader that are wrong in the same way
show as well.

* `harness/core.py` runs the cases in parallel worker processes (each a slice of the cases with its own Hypothesis seed
  derived from VERIF_SEED), counts cases, distinct cases and non-trivial ones by each facet's stated rule, samples some
  for the evidence file, and on failure shrinks with Hypothesis and writes the shrunk value as JSON (`harness/codec.py`
  keeps NaN, infinities, tuples, dates and numpy/pandas scalars) to `replays/<PID>/`. The VIOLATION line names that
  file and `--replay` runs it alone. The minimal case is run once more by itself, so that
  the file reproduces the failure alone; a failure that only shows after other cases in the same process is reported as such.
* `regress/<PID>/` holds the shrunk inputs of every defect found so far; every run starts with them.
* `harness/gen.py` holds the shared generators (schemas, foreign key graphs, typed cells, hostile text) and the
  normal form in which cells are compared; `formats.py` the independent file builders and readers; `pg.py` a private
  PostgreSQL server (run as `nobody`, in a scratch directory); `access.py` a stand-in for the Access ODBC driver;
  `ampl.py` a stand-in for amplpy.
* Anything that writes, deletes or overwrites does so under a scratch directory made by the check (`ctx.tmpdir()`).
* Tiers: quick has the number of cases listed below per facet; thorough multiplies them (see MANIFEST.json).
* `tools/suite.sh` (the repository's tests), `tools/try.sh` (a check against a reverted fix or a patch),
  `tools/seeds.py` and `tools/seedtest.sh` (planted bugs), `tools/mutate.py` (mutation testing, below).

What the tests in the repository cannot settle, and this can: each property quantifies over schemas, foreign key
graphs, types, cells, formats and call histories. The tests fix one schema (diet, netflow) and a few values per call;
all the defects listed in `known_findings.json` lay outside those samples.
"""
EXTRA = {}
EXTRA["P01"] = ("The rows of a table are a plain list; each documented shape is built from it and must give the list back, before and after edits, and the argument itself must not change.",
 "Fields called `name` are not put in DataFrames (pandas rows have an attribute of that name: documented limit of the shape test).")
EXTRA["P02"] = ("Every live object (copies included) has a plain model; after each step of the history all of them are compared in full. Diagnostics and writers are wrapped in before/after snapshots of data and schema.", "")
EXTRA["P03"] = ("Attacks are the public mutating methods of every object reachable from a frozen TicDat and from the factory's views. A deep snapshot must not change, whatever the call raises.", "")
EXTRA["P04"] = ("A good object is built, one structural corruption applied; the verdict follows from the documented rule for that kind of corruption.",
 "An earlier form that also judged keyword arguments to the PanDat constructor was a false alarm (pandas accepts them differently by version) and was dropped.")
EXTRA["P05"] = ("A dict model of all settings follows the setter history; the full schema must equal the model after every step and survive the direct, JSON-text and cross-factory rebuild.", "")
EXTRA["P06"] = ("Each clone/edit has a reference implementation on the plain spec (fields, keys, defaults, types, foreign keys, tooltips, predicates).", "")
EXTRA["P07"] = ("Closure of the reduced foreign keys by sets; links compared by object identity with a naive join.", "Link names are judged only where the documentation fixes them.")
EXTRA["P08"] = ("Nested-loop join over small key pools, so that hits and misses are both common.", "Null matches null (as the join does) for every column type.")
EXTRA["P09"] = ("Greatest fixpoint on lists; long chains enumerated so that recursion limits and rounds show.", "")
EXTRA["P10"] = ("The documented rule re-stated and evaluated on each cell; a fully enumerated lattice of rules x values as the first facet.", "Date text that parsers disagree on is left out.")
EXTRA["P11"] = ("Expected table computed cell by cell.", "The statement was corrected once: PanDat replaces key cells when the key field has a default (documented opt-in).")
EXTRA["P12"] = ("Predicates decide by a hash of the row and kwargs; all callables are instrumented, so both results and the calls made are compared.", "")
EXTRA["P13"] = ("Dict overlay of declared defaults and entries, rule evaluation per entry.", "")
EXTRA["P14"] = ("Counter over the rows written.", "Key values survive the coercions of the format they are written in.")
EXTRA["P15"] = ("The reported renaming is inverted and must give the data back; entity tables and references come from a set-based closure.", "An AssertionError instead of a TicDatError is accepted for the refusals the code documents as asserts.")
EXTRA["P16"] = ("Cell comparison both ways plus linear filters for sloc.", "")
EXTRA["P17"] = ("Round trip plus the JSON text parsed by `json`.", "Numbers beyond the flag, and text in layouts that pandas itself types, are documented exclusions.")
EXTRA["P18"] = ("Round trip plus the `csv` module's own reading.", "One-column rows that are only whitespace are skipped by csv itself and not generated.")
EXTRA["P19"] = ("Round trip plus direct `sqlite3` access and execution of the .sql text.", "Consecutive single quotes in .sql are collapsed by a replacement an existing test requires; integers beyond 2**53 in FLOAT columns lose digits in SQLite.")
EXTRA["P20"] = ("Round trip plus openpyxl/xlrd.", "Excel stores dates to the millisecond; sheets without header, empty sheets under `ignore`, native infinities in .xls for pandas are outside.")
EXTRA["P21"] = ("Round trip plus direct SQL on a real server.", "")
EXTRA["P22"] = ("The stored value per cell is computed from the documented flag rule and looked up in the file.", "Finite numbers beyond the flag and native infinities in foreign files under a numeric flag are undefined by the documentation and not generated.")
EXTRA["P23"] = ("Sources are built with recased, respaced and reordered names; every cell is a unique token.", "Statement corrected: PanDat and JSON need exact field names. Names that differ only by the pretty/plain transformation may match either way.")
EXTRA["P24"] = ("Byte snapshots of the whole directory tree around each write.", "What pandas does when replacing a differently-cased SQLite table is not judged.")
EXTRA["P25"] = ("Differential along chains of conversions, compared with the starting rows.", "pandas' JSON keeps ten digits by default: compared to that tolerance.")
EXTRA["P26"] = ("The documented conversion rule restated per entry kind x rule x format.", "date and np.datetime64 objects are outside the documented domain; Excel to the millisecond; containers that type the cell themselves are compared by value.")
EXTRA["P27"] = ("The same rows as a list; iterations interleaved; every diagnostic differential against the ordinary table.", "A diagnostic may refuse or skip generator tables (documented), it may not answer wrongly.")
EXTRA["P28"] = ("Whole command lines, in process, with an instrumented solve; reference findings and reading back.", "TicDat refuses JSON and predicates for generic tables (documented), so those are judged as refusals. Access and Foresta are stand-ins.")
EXTRA["P29"] = ("Linear filter over the index list.", "NaN, zero-width indices and list arguments are outside the documented domain.")
EXTRA["P30"] = ("One simple definition per helper.", "Nested doubled braces and index names are not judged.")
EXTRA["P31"] = ("Exact enumeration over the integer grid and vertices, all installed solvers against it and each other.", "Quadratic programs and interrupted solves are outside; a solver takes part only if its own API solves a one-variable program here.")
EXTRA["P32"] = ("Stand-in for pyodbc over SQLite that enforces Access's statement forms and column types.", "The real driver exists on Windows only; what is decided is the library's half. No dates; native infinities only under a flag.")
EXTRA["P33"] = ("Stand-in for amplpy that records frames and returns variables.", "amplpy is not installed; what is decided is the library's half.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
res = {}
p = os.path.join(V, "tools", "seed_results.json")
if os.path.exists(p):
    res = json.load(open(p))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [INTRO, "\n## The properties\n\n"]
for pr in props:
    pid = pr["id"]
    m = importlib.import_module("harness.checks." + pid.lower())
    out.append("### %s %s\n\n" % (pid, pr["title"]))
    out.append("*Decided by* %s.\n\n*Explored.* %s\n" % (m.TECHNIQUE.rstrip("."), m.NOTE))
    o, excl = EXTRA[pid]
    out.append("\n*Oracle.* %s\n" % o)
    if excl:
        out.append("\n*Outside, or corrected after a false alarm.* %s\n" % excl)
    out.append("\nFacets (quick cases; what counts as non-trivial):\n\n")
    for f in m.FACETS:
        n = "enumerated" if f.cases is not None else str(f.quick)
        out.append("* %s — %s; %s\n" % (f.name, n, f.rule))
    if pid in seeds:
        out.append("\nPlanted bugs (what they need to show; whether the quick check reports them):\n\n")
    for sid, meta in seeds.get(pid, []):
        out.append("* `%s` (%s): %s\n" % (sid, meta["needs"], res.get(sid, "see seeded/")))
    out.append("\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
