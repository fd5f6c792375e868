import contextlib, itertools, os, warnings
from fractions import Fraction as Fr
from hypothesis import strategies as st
from .. import gen
from ..core import Facet, require, require_eq, fail

TECHNIQUE = ("differential and model-based testing (Hypothesis): small random programs, grown and solved again in steps, built through Model on every installed solver and compared with exact enumeration "
             "(integer grids, vertices of the continuous part in rational arithmetic)")
NOTE = ("Up to 4 variables and 5 constraints with integer data, indicator constraints, both senses, free and fixed variables; up to three rounds of additions. A solver takes part when it solves a one variable program "
        "through its own API. Quadratic expressions and interrupted solves are not generated.")
INF = gen.INF
BOX = 10 ** 4


@contextlib.contextmanager
def quiet():
    keep = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1), os.dup2(null, 2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for fd in keep + (null,):
            os.close(fd)


_works = {}


def works(kind):
    """whether the solver itself is usable, found out without ticdat"""
    if kind not in _works:
        try:
            with quiet():
                if kind == "gurobi":
                    import gurobipy as gu
                    m = gu.Model("probe", env=gu.Env())
                    x = m.addVar(ub=3)
                    m.setObjective(x, sense=gu.GRB.MAXIMIZE)
                    m.optimize()
                    _works[kind] = abs(x.x - 3) < 1e-6
                elif kind == "cplex":
                    from docplex.mp.model import Model
                    m = Model("probe")
                    x = m.continuous_var(ub=3)
                    m.maximize(x)
                    _works[kind] = bool(m.solve())
                else:
                    import xpress as xp
                    m = xp.problem("probe")
                    x = xp.var(ub=3)
                    m.addVariable(x)
                    m.setObjective(x, sense=xp.maximize)
                    m.solve()
                    _works[kind] = abs(m.getSolution()[0] - 3) < 1e-6
        except Exception:
            _works[kind] = False
    return _works[kind]


# ------------------------------------------------------------------------------------------- exact oracle
def solve_square(a, b):
    n = len(b)
    m = [list(map(Fr, r)) + [Fr(x)] for r, x in zip(a, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c]), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return [r[-1] for r in m]


def best_lp(n, rows, obj, box):
    """max obj.x for rows [(coefs, op, rhs)], |x| <= box; None if infeasible"""
    if n == 0:
        ok = all({"<=": 0 <= r, ">=": 0 >= r, "==": r == 0}[op] for _, op, r in rows)
        return Fr(0) if ok else None
    cons = []
    for c, op, r in rows:
        if op in ("<=", "=="):
            cons.append((c, r))
        if op in (">=", "=="):
            cons.append(([-x for x in c], -r))
    for j in range(n):
        e = [0] * n
        e[j] = 1
        cons += [(e, box), ([-x for x in e], box)]
    seen, uniq = set(), []
    for c, r in cons:
        k = (tuple(c), r)
        if k not in seen:
            seen.add(k)
            uniq.append((c, r))
    best = None
    for pick in itertools.combinations(uniq, n):
        x = solve_square([c for c, _ in pick], [r for _, r in pick])
        if x is not None and all(sum(a * b for a, b in zip(c, x)) <= r for c, r in uniq):
            v = sum(a * b for a, b in zip(obj, x))
            best = v if best is None or v > best else best
    return best


def oracle(prog):
    """None (infeasible), "unbounded", or the optimal value (as the user sees it)"""
    sign = 1 if prog["sense"] == "maximize" else -1
    vs = prog["vars"]
    ints = [i for i, v in enumerate(vs) if v["type"] != "continuous"]
    reals = [i for i, v in enumerate(vs) if v["type"] == "continuous"]

    def value(box):
        best = None
        for pt in itertools.product(*[range(-(-int(vs[i]["lb"] * 2) // 2), (1 if vs[i]["ub"] == INF else int(vs[i]["ub"])) + 1) for i in ints]):
            at = dict(zip(ints, pt))
            rows = []
            act = [c for c in prog["cons"]] + [c for b, on, c in prog["inds"] if at[b] == (1 if on else 0)]
            for c in act:
                rhs = c["rhs"] - sum(c["coef"][i] * at[i] for i in ints)
                rows.append(([c["coef"][i] for i in reals], c["op"], rhs))
            for k, i in enumerate(reals):
                e = [0] * len(reals)
                e[k] = 1
                if vs[i]["ub"] < INF:
                    rows.append((e, "<=", Fr(vs[i]["ub"])))
                if vs[i]["lb"] > -INF:
                    rows.append((e, ">=", Fr(vs[i]["lb"])))
            v = best_lp(len(reals), rows, [sign * prog["obj"][i] for i in reals], box)
            if v is not None:
                v += sum(sign * prog["obj"][i] * at[i] for i in ints)
                best = v if best is None or v > best else best
        return best
    a = value(BOX)
    if a is None:
        return None
    if reals and any(vs[i]["lb"] == -INF or vs[i]["ub"] == INF for i in reals) and value(2 * BOX) != a:
        return "unbounded"
    return sign * a + prog["const"]


# ------------------------------------------------------------------------------------------- programs
@st.composite
def _case(draw):
    n_all = draw(st.integers(1, 4))
    vs = []
    for _ in range(n_all):
        t = draw(st.sampled_from(["continuous", "continuous", "integer", "binary"]))
        if t == "continuous":
            lb = draw(st.sampled_from(["default", "default", 0, -INF, -2, 1, 0.5]))
            ub = draw(st.sampled_from(["default", "default", 3, 10, 2.5, 1]))
        elif t == "integer":
            lb, ub = draw(st.sampled_from(["default", 0, -2, 1])), draw(st.sampled_from([1, 2, 3, 2.5]))
        else:
            lb, ub = draw(st.sampled_from([["default", "default"], ["default", "default"], [0, 1], [0, 0], [1, 1], ["default", 0], [1, "default"]]))
        vs.append({"type": t, "lb": lb, "ub": ub, "name": draw(st.booleans())})
    coef = st.lists(st.sampled_from([0, 0, 1, 1, 2, -1, 3, -2]), min_size=n_all, max_size=n_all)
    con = st.fixed_dictionaries({"coef": coef, "op": st.sampled_from(["<=", "<=", ">=", ">=", "=="]), "rhs": st.integers(-4, 9), "form": st.sampled_from(["sum", "sum", "generator", "values", "plus", "both sides", "right"]), "name": st.booleans()})
    cons = draw(st.lists(con, max_size=5))
    inds = []
    bins = [i for i, v in enumerate(vs) if v["type"] == "binary"]
    if bins:
        inds = draw(st.lists(st.tuples(st.sampled_from(bins), st.sampled_from([True, False, 1, 0]), con).map(list), max_size=2))
    rounds = draw(st.integers(1, 3))
    return {"vars": vs, "cons": [[draw(st.integers(0, rounds - 1)), c] for c in cons], "inds": [[draw(st.integers(0, rounds - 1)), i] for i in inds], "born": sorted(draw(st.lists(st.integers(0, rounds - 1), min_size=n_all, max_size=n_all))),
            "objs": [[draw(coef), draw(st.sampled_from([0, 0, 5])), draw(st.sampled_from(["default", "minimize", "maximize", "maximize"]))] for _ in range(rounds)],
            "gap": draw(st.sampled_from([None, None, 0.001, 0.3])), "time": draw(st.sampled_from([None, None, 100])), "two": draw(st.booleans())}


def check(case, ctx):
    import ticdat
    from ticdat.utils import TicDatError
    n = len(case["vars"])
    kinds = [k for k in ("gurobi", "cplex", "xpress") if works(k)]
    for k in kinds:
        ctx.label(k)
    with quiet():
        models = {k: ticdat.Model(k, "m") for k in kinds}
        others = {}
        for k, m in models.items():
            require_eq(m.model_type, k, "model_type")
            if k == "gurobi":
                m.core_model.Params.OutputFlag, m.core_model.Params.Threads = 0, 1
            elif k == "xpress":
                m.core_model.setControl({"outputlog": 0, "threads": 1})
            else:
                m.core_model.context.cplex_parameters.threads = 1
            if case["two"]:  # another model of the same solver, grown in between
                others[k] = ticdat.Model(k, "other")
            if case["gap"] is not None:
                m.set_parameters(MIP_Gap=case["gap"])
                got = {"gurobi": lambda: m.core_model.Params.MIPGap, "cplex": lambda: m.core_model.parameters.mip.tolerances.mipgap.get(), "xpress": lambda: m.core_model.controls.miprelstop}[k]()
                require(abs(got - case["gap"]) < 1e-12, "%s: gap %s after MIP_Gap=%s", k, got, case["gap"])
            if case["time"]:
                try:
                    m.set_parameters(time_limit=case["time"])
                    got = m.core_model.Params.TimeLimit if k == "gurobi" else m.core_model.controls.timelimit
                    require_eq(float(got), float(case["time"]), "%s: time limit" % k)
                except TicDatError:
                    require_eq(k, "cplex", "a time limit is refused")
    lb = lambda v: (0 if v["lb"] == "default" else v["lb"])
    ub = lambda v: ((1 if v["type"] == "binary" else INF) if v["ub"] == "default" else v["ub"])
    xs = {k: {} for k in kinds}
    born = case["born"]
    cons, inds = [], []
    has_ind = False
    for rnd, (obj, const, sense) in enumerate(case["objs"]):
        alive = [i for i in range(n) if born[i] <= rnd]
        if not alive:
            continue
        with quiet():
            for k, m in models.items():
                for i in alive:
                    if i not in xs[k]:
                        v = case["vars"][i]
                        kw = {}
                        if v["lb"] != "default":
                            kw["lb"] = v["lb"]
                        if v["ub"] != "default":
                            kw["ub"] = v["ub"]
                        if v["type"] != "continuous" or v["name"]:
                            kw["type"] = v["type"]
                        if v["name"]:
                            kw["name"] = "v%d" % i
                        xs[k][i] = m.add_var(**kw)
                        if k in others:
                            o = others[k].add_var()
                            others[k].add_constraint(o <= 7)
        # a constraint joins in its round, or as soon as its variables all exist
        usable = lambda c: all(not a or i in alive for i, a in enumerate(c["coef"])) and any(c["coef"])
        new = [[r, c] for r, c in case["cons"] if r <= rnd and usable(c) and c not in cons]
        newi = [[r, x] for r, x in case["inds"] if r <= rnd and x[0] in alive and usable(x[2]) and x[2]["coef"][x[0]] == 0 and x[2]["op"] != "==" and x not in inds]

        def built(m, X, c):
            terms = [a * X[i] for i, a in enumerate(c["coef"]) if a]
            f = c["form"]
            rhs = c["rhs"]
            if f == "generator":
                e = m.sum(t for t in terms)
            elif f == "values":
                e = m.sum({i: t for i, t in enumerate(terms)}.values())
            elif f == "plus":
                e = terms[0]
                for t in terms[1:]:
                    e = e + t
            elif f == "both sides":
                half = [a * X[i] for i, a in enumerate(c["coef"]) if a]
                e, rhs = m.sum(t + t for t in terms), m.sum(half) + rhs
            elif f == "right":
                e = m.sum(terms)
                return {"<=": lambda: -rhs <= -e, ">=": lambda: -rhs >= -e, "==": lambda: -e == -rhs}[c["op"]]()
            else:
                e = m.sum(terms)
            return {"<=": lambda: e <= rhs, ">=": lambda: e >= rhs, "==": lambda: e == rhs}[c["op"]]()
        for r, c in new:
            if c not in cons:
                cons.append(c)
                with quiet():
                    for k, m in models.items():
                        m.add_constraint(built(m, xs[k], c), **({"name": "c%d" % len(cons)} if c["name"] else {}))
        for r, x in newi:
            if "cplex" in models:  # refused there
                with quiet():
                    try:
                        models["cplex"].add_indicator_constraint(xs["cplex"][x[0]], x[1], built(models["cplex"], xs["cplex"], x[2]))
                        refused = False
                    except TicDatError:
                        refused = True
                require(refused, "cplex accepts an indicator constraint")
                models.pop("cplex")
            inds.append(x)
            with quiet():
                for k, m in models.items():
                    m.add_indicator_constraint(xs[k][x[0]], x[1], built(m, xs[k], dict(x[2], form="sum")))
        prog = {"vars": [dict(case["vars"][i], lb=lb(case["vars"][i]), ub=ub(case["vars"][i])) for i in alive], "sense": "minimize" if sense == "default" else sense, "obj": [obj[i] for i in alive], "const": const,
                "cons": [dict(c, coef=[c["coef"][i] for i in alive]) for c in cons], "inds": [[alive.index(b), on, dict(c, coef=[c["coef"][i] for i in alive])] for b, on, c in inds]}
        want = oracle(prog)
        ctx.nontrivial("infeasible" if want is None else "unbounded" if want == "unbounded" else "optimal")
        mip = any(v["type"] != "continuous" for v in prog["vars"])
        if mip and any(v["type"] == "continuous" for v in prog["vars"]):
            ctx.label("mixed")
        for k, m in models.items():
            where = "%s, round %d" % (k, rnd)
            with quiet():
                m.set_objective(m.sum([obj[i] * xs[k][i] for i in alive]) + const, **({"sense": sense} if sense != "default" else {}))
                ok = m.optimize()
            require_eq(bool(ok), want is not None and want != "unbounded", "%s: outcome of optimize for a program whose best value is %s" % (where, want))
            if not ok:
                continue
            vals = [m.get_solution_value(xs[k][i]) for i in alive]
            for v, x in zip(prog["vars"], vals):
                require(v["lb"] - 1e-5 <= x <= v["ub"] + 1e-5 and (v["type"] == "continuous" or abs(x - round(x)) < 1e-5), "%s: value %s of a variable %s", where, x, v)
            ind_now = [c for b, on, c in prog["inds"] if round(vals[b]) == (1 if on else 0)]
            for c in prog["cons"] + ind_now:
                e = sum(a * x for a, x in zip(c["coef"], vals))
                require({"<=": e <= c["rhs"] + 1e-4, ">=": e >= c["rhs"] - 1e-4, "==": abs(e - c["rhs"]) < 1e-4}[c["op"]], "%s: values %s break %s", where, vals, c)
            got = sum(a * x for a, x in zip(prog["obj"], vals)) + const
            gap = (case["gap"] or 0) if mip else 0
            slack = 1e-3 * max(1, abs(want)) + gap * max(abs(got), abs(float(want)))
            worse = float(want) - got if prog["sense"] == "maximize" else got - float(want)
            require(-1e-3 <= worse <= slack, "%s: objective %s of the solution %s, the best value is %s", where, got, vals, want)
            if mip:
                r = m.get_mip_results()
                require(abs(r.objective_value - got) < 1e-3, "%s: objective_value %s, the solution gives %s", where, r.objective_value, got)
                beyond = r.best_bound - float(want) if prog["sense"] == "maximize" else float(want) - r.best_bound
                require(-1e-3 <= beyond <= slack + 1e-3, "%s: best_bound %s, the best value is %s", where, r.best_bound, want)


# ------------------------------------------------------------------------------------------- refused arguments
def check_args(case, ctx):
    import ticdat
    from ticdat.utils import TicDatError
    lb, ub, t, k = case["lb"], case["ub"], case["type"], case["kind"]
    number = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    ok = t in ("continuous", "binary", "integer") and number(lb) and number(ub) and ub >= lb and lb < INF and ub > -INF
    if ok and t == "binary":
        ok = lb in (0, 1) and (1 if ub == INF else ub) in (0, 1)
    if not works(k):
        return
    with quiet():
        m = ticdat.Model(k)
        try:
            m.add_var(lb, ub, t)
            got = True
        except TicDatError:
            got = False
    require_eq(got, bool(ok), "%s: add_var(lb=%r, ub=%r, type=%r) is accepted" % (k, lb, ub, t))
    if not ok:
        ctx.nontrivial("refused")
    for f in (lambda: m.set_parameters(gap=1), lambda: m.set_objective(0, sense="max"), lambda: ticdat.Model("cbc")):
        try:
            f()
        except TicDatError:
            continue
        fail("an unknown parameter, sense or solver is accepted")


number = st.sampled_from([0, 1, 0.5, -1, 2, INF, -INF, 1.0, True, "1", None])
FACETS = [Facet("programs", check, _case, quick=1200, rule="a program was solved and compared"),
          Facet("arguments", check_args, lambda: st.fixed_dictionaries({"lb": number, "ub": number, "type": st.sampled_from(["continuous", "binary", "integer", "bool", "int"]), "kind": st.sampled_from(["gurobi", "cplex", "xpress"])}),
                quick=150, rule="the arguments were refused")]
