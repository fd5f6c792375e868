"""mutate.py FILE N SEED : random single-point mutants of ticdat/FILE against the checks that cover their line (a way to find holes in the checks)"""
import ast, os, random, subprocess, sys, json, shutil, collections, multiprocessing as mp, time
ROOT = os.environ.get("MROOT", "/tmp/wrm"); V = os.environ.get("MV", "/tmp/wvm")
MAP = {"csvtd.py": "P18 P26 P25 P14 P23 P24 P22 P27 P28", "jsontd.py": "P17 P26 P25 P14 P23 P24 P22 P27 P28", "sqlitetd.py": "P19 P26 P25 P14 P23 P24 P22 P27 P28",
  "xls.py": "P20 P26 P25 P14 P23 P24 P22 P27 P28", "mdb.py": "P32", "pgtd.py": "P21 P22 P25 P14 P24 P26 P27", "pandatio.py": "P17 P18 P19 P20 P26 P25 P14 P22 P23 P24 P16 P28",
  "model.py": "P31"}
PREF = "P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P01 P02 P03 P04 P26 P22 P27 P28 P29 P30 P31 P17 P18 P19 P20 P25 P23 P24 P21 P32".split()
cov = collections.defaultdict(set)
for p in PREF:
    for l in open("/tmp/cov/%s.txt" % p):
        f, n = l.strip().split(":"); cov[f, int(n)].add(p)
size = {p: sum(p in v for v in cov.values()) for p in PREF}

def mutants(path):
    src = open(path, newline="").read(); tree = ast.parse(src)
    starts = [0]
    b = src.encode()
    for line in b.splitlines(keepends=True): starts.append(starts[-1] + len(line))
    off = lambda l, c: starts[l-1] + c
    seg = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*seg(n))].decode()
    out = []
    def add(n, new, kind): out.append((n.lineno, *seg(n), new, kind))
    docs = set()
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): par[c] = n
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            rep = {"Eq": "!=", "NotEq": "==", "Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "In": "not in", "NotIn": "in", "Is": "is not", "IsNot": "is"}[op]
            add(n, "(%s %s %s)" % (text(n.left), rep, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            add(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" or " if isinstance(n.op, ast.Or) else " and ").join("(%s)" % text(v) for v in rest) + ")", "dropterm")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(%s)" % text(n.operand), "not")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "ifexp-body"); add(n, "(%s)" % text(n.orelse), "ifexp-else")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If): add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.comprehension):
            for i in n.ifs: add(i, "True", "drop-filter")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "None", "drop-call")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(par.get(n), ast.Module):
            if isinstance(n, ast.AugAssign) or any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets): add(n, "None", "drop-assign")
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in ("Add", "Sub") and not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.JoinedStr):
            if isinstance(n.op, ast.Add): add(n, "(%s)" % text(n.left), "drop-right"); add(n, "(%s)" % text(n.right), "drop-left")
            else: add(n, "(%s + %s)" % (text(n.left), text(n.right)), "minus")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int)) and not isinstance(par.get(n), ast.Expr):
            add(n, repr((not n.value) if isinstance(n.value, bool) else n.value + 1), "const")
        elif isinstance(n, ast.Slice):
            if n.lower: add(n.lower, "", "slice") if not isinstance(n.lower, ast.Constant) or True else 0
            if n.upper: add(n.upper, "", "slice")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = off(k.lineno, k.col_offset), off(k.end_lineno, k.end_col_offset)
                    e2 = e
                    while b[e2:e2+1] in (b" ", b","): e2 += 1
                    s2 = s
                    while e2 == e and b[s2-1:s2] in (b" ", b","): s2 -= 1
                    out.append((k.lineno, s2, e2, "", "drop-kw"))
            if f in ("set", "frozenset", "sorted", "list", "reversed", "tuple") and len(n.args) == 1 and not n.keywords: add(n, "(%s)" % text(n.args[0]), "drop-wrap")
            if f.endswith((".lower", ".strip", ".upper", ".copy")) and not n.args: add(n, text(n.func.value), "drop-method")
            if f in ("any", "all"): add(n.func, {"any": "all", "all": "any"}[f], "anyall")
        elif isinstance(n, (ast.Break, ast.Continue)): add(n, "pass", "jump")
    good = []
    for m in dict.fromkeys(out):
        new = b[:m[1]] + m[3].encode() + b[m[2]:]
        good.append(m)
    return b, good

def run(args):
    name, m = args
    slot = mp.current_process()._identity[0]
    d = "/tmp/mut.%d" % slot
    if not os.path.isdir(d):
        os.makedirs(d); subprocess.check_call("git -C %s archive HEAD ticdat | tar x -C %s" % (ROOT, d), shell=True)
    p = os.path.join(d, "ticdat", name); b = open(os.path.join(ROOT, "ticdat", name), "rb").read()
    l, s, e, new, kind = m
    open(p, "wb").write(b[:s] + new.encode() + b[e:])
    cand = cov[name, l]
    pref = MAP.get(name, "").split()
    order = [x for x in pref if x in cand] + sorted([x for x in cand if x not in pref], key=lambda x: size[x])
    order = order[:int(os.environ.get("MAXC", 9))]
    res = "SURVIVED"
    t = time.time()
    for x in order:
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=str(random.randrange(1000)))
        try:
            r = subprocess.run(["./run.sh", x, "--scale", os.environ.get("SC", "0.3"), "--workers", "1"], cwd=V, env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            res = "killed-timeout " + x; break
        if r.returncode == 1: res = "killed " + x; break
        if r.returncode != 0: res = "ERROR %s %s" % (x, (r.stdout + r.stderr)[-300:].replace("\n", " ")); break
    open(p, "wb").write(b)
    return name, m, res, order, time.time() - t, b[s:e].decode()

if __name__ == "__main__":
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    jobs = []
    done = set()
    for f in os.listdir("/tmp/mt"):
        if f.startswith("res"):
            for line in open("/tmp/mt/" + f): r = json.loads(line); done.add((r[0], tuple(r[1][:1]), r[5], r[1][3], r[1][4]))
    for f in sys.argv[4:]:
        b, ms = mutants(os.path.join(ROOT, "ticdat", f))
        ms = [m for m in ms if cov[f, m[0]] and (f, (m[0],), b[m[1]:m[2]].decode(), m[3], m[4]) not in done]
        random.Random(seed).shuffle(ms)
        print(f, len(ms), collections.Counter(m[4] for m in ms))
        k = 0
        for m in ms:
            if k == n: break
            try: ast.parse(b[:m[1]] + m[3].encode() + b[m[2]:])
            except SyntaxError: continue
            k += 1; jobs.append((f, m))
    random.Random(seed).shuffle(jobs)
    with mp.Pool(int(os.environ.get("JOBS", 7))) as pool, open(out, "a") as o:
        for r in pool.imap_unordered(run, jobs):
            o.write(json.dumps(r) + "\n"); o.flush()
    subprocess.call("rm -rf /tmp/mut.[0-9]*", shell=True)
