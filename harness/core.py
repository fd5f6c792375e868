"""
Runner: drives the facets of one property with hypothesis over several worker processes, writes the evidence
file, and turns a shrunk failure into a replay file that needs no hypothesis.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the harness itself failed.
"""
import argparse, contextlib, importlib, json, os, shutil, signal, sys, tempfile, time, traceback, warnings
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TICDAT_DIR = os.path.join(os.path.realpath(REPO), "ticdat") + os.sep
CASE_CPU_LIMIT_S = 150


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    pass


class Excluded(Exception):
    """case matches a recorded known finding: excluded, counted."""


class _Hang(Exception):
    pass


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def require_eq(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


@contextlib.contextmanager
def interpreting(what):
    """around harness code that reads a result of the code under test: a result of the wrong form is a violation"""
    try:
        yield
    except (KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
        raise Violation("%s has the wrong form: %s %s" % (what, type(e).__name__, short(str(e)))) from None


class Facet:
    """
    name      short name
    strategy  callable returning a hypothesis strategy of plain (codec-encodable) cases, or None for enumerated ones
    check     check(case, ctx): raises Violation when broken; calls ctx.nontrivial(label) when the case counts
    quick     number of generated cases in the quick tier (all shards together); thorough likewise
    cases     optional callable returning a list of fixed cases (an enumerated space) run in full
    rule      what makes a case non-trivial
    """
    def __init__(self, name, check, strategy=None, quick=400, thorough=None, cases=None, rule="", shards=None):
        self.name, self.check, self.strategy, self.quick = name, check, strategy, quick
        self.thorough = thorough or quick * 12
        self.cases, self.rule, self.shards = cases, rule, shards


class Ctx:
    def __init__(self, stats, scratch, known_mode=False):
        self.stats, self._scratch, self._n, self.known_mode = stats, scratch, 0, known_mode
        self.labels = []
        self._dirs = []

    def nontrivial(self, label="nontrivial"):
        self.labels.append(label)

    def label(self, label):
        """count a class of cases without making the case non-trivial"""
        self.stats["labels"][label] = self.stats["labels"].get(label, 0) + 1

    def tmpdir(self):
        d = tempfile.mkdtemp(dir=self._scratch)
        self._dirs.append(d)
        return d

    def known(self, kid):
        """call when the case matches known finding kid; excluded from search unless we are replaying findings"""
        if not self.known_mode:
            self.stats["excluded"][kid] = self.stats["excluded"].get(kid, 0) + 1
            raise Excluded(kid)

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


def _new_stats():
    return {"evaluations": 0, "labels": {}, "excluded": {}, "hashes": set(), "samples": [], "truncated": 0}


def _through_ticdat(tb):
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(TICDAT_DIR):
            return True
        tb = tb.tb_next
    return False


def _on_alarm(*_):
    raise _Hang()


def run_case(facet, case, stats, scratch, known_mode=False):
    """runs one case; returns None (held), or raises Violation / HarnessError"""
    from . import codec
    ctx = Ctx(stats, scratch, known_mode)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT_S)
    cwd = os.getcwd()
    try:
        facet.check(case, ctx)
    except Excluded:
        return
    except Violation:
        raise
    except _Hang:
        raise Violation("case still computing after %s CPU seconds: does not terminate" % CASE_CPU_LIMIT_S)
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if _through_ticdat(e.__traceback__):
            raise Violation("unexpected %s from ticdat: %s\n%s" % (
                type(e).__name__, short(str(e)), "".join(traceback.format_tb(e.__traceback__)[-4:]))) from None
        raise HarnessError("".join(traceback.format_exception(e))) from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        ctx.cleanup()
    stats["evaluations"] += 1
    for l in set(ctx.labels):
        stats["labels"][l] = stats["labels"].get(l, 0) + 1
    if ctx.labels:
        h = codec.digest([facet.name, case])
        if h not in stats["hashes"]:
            stats["hashes"].add(h)
            if len(stats["samples"]) < 2:
                s = codec.dumps(case)
                if len(s) < 4000:
                    stats["samples"].append({"facet": facet.name, "labels": sorted(set(ctx.labels)),
                                             "case": json.loads(s)})


def load_facets(pid):
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    mod = importlib.import_module("harness.checks.%s" % pid.lower())
    import ticdat
    if not os.path.realpath(ticdat.__file__).startswith(TICDAT_DIR):
        raise HarnessError("ticdat imported from %s" % ticdat.__file__)
    return mod, {f.name: f for f in mod.FACETS}


def _worker_init():
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_task(task):
    """one (facet, shard): returns dict with stats and an optional failure"""
    pid, fname, shard, nshards, n, seed, deadline, scratch, max_shrink = task
    stats = _new_stats()
    try:
        mod, facets = load_facets(pid)
        facet = facets[fname]
        if shard == "cases":
            for i, case in enumerate(facet.cases()):
                if i % nshards[1] != nshards[0]:
                    continue
                if time.time() > deadline:
                    stats["truncated"] += 1
                    continue
                try:
                    run_case(facet, case, stats, scratch)
                except Violation as e:
                    return {"stats": stats, "facet": fname, "fail": {"case": case, "msg": str(e)}}
            return {"stats": stats, "facet": fname}
        return _hypothesis_task(facet, n, seed, deadline, stats, scratch, max_shrink)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise HarnessError("interrupted: %r" % e)
        return {"stats": stats, "facet": fname, "error": "".join(traceback.format_exception(e))[-6000:]}


def _hypothesis_task(facet, n, seed, deadline, stats, scratch, max_shrink):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, strategies as st, Verbosity
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = max_shrink
    strategy = facet.strategy()
    box = {}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
              verbosity=Verbosity.quiet, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=[h for h in HealthCheck if h is not HealthCheck.filter_too_much])
    @given(data=st.data())
    def test(data):
        if time.time() > deadline and "first" not in box:
            stats["truncated"] += 1
            return
        case = data.draw(strategy)
        try:
            run_case(facet, case, stats, scratch)
        except Violation as e:
            box["fail"] = (case, str(e))
            box.setdefault("first", (case, str(e)))
            raise
    try:
        test()
    except (Exception, BaseExceptionGroup) as e:
        if "fail" not in box:
            return {"stats": stats, "facet": facet.name, "error": "".join(traceback.format_exception(e))[-6000:]}
        # the last one run is normally the minimal one; prefer whichever reproduces outside hypothesis
        for key in ("fail", "first"):
            case, msg = box[key]
            try:
                run_case(facet, case, _new_stats(), scratch)
            except Violation as e2:
                return {"stats": stats, "facet": facet.name, "fail": {"case": case, "msg": str(e2)}}
            except Exception:
                pass
        case, msg = box["first"]
        return {"stats": stats, "facet": facet.name,
                "fail": {"case": case, "msg": "(depends on the history of the process) " + msg}}
    return {"stats": stats, "facet": facet.name}


def _mix(seed, *parts):
    import hashlib
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:7], "big")


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def write_replay(pid, facet, case, msg):
    from . import codec
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (pid, facet, codec.digest(case).hex()))
    with open(path, "w") as f:
        json.dump({"property": pid, "facet": facet, "message": msg, "case": codec.enc(case)}, f, indent=1)
    return path


def _preflight(args):
    """known findings and regression inputs, run in a child process; returns (known lines, failure, error, count)"""
    pid, scratch = args
    from . import codec
    out = {"known": [], "n": 0}
    stats = _new_stats()
    try:
        mod, facets = load_facets(pid)
        for e in load_known(pid):
            if e.get("status") != "open":
                continue
            try:
                run_case(facets[e["facet"]], codec.dec(e["case"]), stats, scratch, known_mode=True)
            except Violation:
                out["known"].append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
        d = os.path.join(VERIF, "regress", pid)
        for fn in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            with open(os.path.join(d, fn)) as f:
                r = json.load(f)
            if r["facet"] not in facets:
                raise HarnessError("regress file %s names unknown facet" % fn)
            case = codec.dec(r["case"])
            out["n"] += 1
            try:
                run_case(facets[r["facet"]], case, stats, scratch)
            except Violation as e:
                out["fail"] = {"case": case, "msg": str(e), "facet": r["facet"]}
                break
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-6000:]
    out["stats"] = stats
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--facet")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args(argv)
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and os.environ.get("VERIF_SHM") else None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
    os.chmod(scratch, 0o755)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        if a.replay:
            return do_replay(pid, a.replay, scratch)
        return do_run(pid, tier, seed, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(pid, path, scratch):
    from . import codec
    with open(path) as f:
        r = json.load(f)
    mod, facets = load_facets(pid)
    stop = _start_service(getattr(mod, "SERVICE", None), scratch)
    try:
        run_case(facets[r["facet"]], codec.dec(r["case"]), _new_stats(), scratch)
    except Violation as e:
        print("%s" % e)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    finally:
        stop()
    print("replay held")
    return 0


def do_run(pid, tier, seed, a, scratch, t0):
    budget = 420 if tier == "quick" else 5400
    deadline = t0 + budget
    mpctx = mp.get_context("fork")
    with mpctx.Pool(1, initializer=_worker_init, maxtasksperchild=1) as p1:
        # facet table comes from a child, so that the parent stays small and unthreaded
        names = p1.apply(_facet_table, (pid,))
        if isinstance(names, str):
            print(names, file=sys.stderr)
            return 2
    names, service = names
    stop = _start_service(service, scratch)
    try:
        return _do_run(pid, tier, seed, a, scratch, t0, budget, deadline, mpctx, names)
    finally:
        stop()


def _start_service(service, scratch):
    """a server that the cases of this property talk to"""
    return importlib.import_module("harness." + service).start(scratch) if service else lambda: None


def _do_run(pid, tier, seed, a, scratch, t0, budget, deadline, mpctx, names):
    agg = {}
    failure = error = None
    if a.facet:
        names = [x for x in names if x["name"] in a.facet.split(",")]
    workers = max(1, min(a.workers, os.cpu_count() or 1))
    with mpctx.Pool(workers, initializer=_worker_init) as pool:
        pre = pool.apply(_preflight, ((pid, scratch),))
        for line in pre["known"]:
            print(line)
        if "error" in pre:
            print(pre["error"], file=sys.stderr)
            return 2
        tasks = []
        for f in names:
            n = int((f["quick"] if tier == "quick" else f["thorough"]) * a.scale)
            if f["cases"]:
                k = f["shards"] or 8
                for i in range(k):
                    tasks.append((pid, f["name"], "cases", (i, k), 0, 0, deadline, scratch, 60))
            if f["strategy"] and n > 0:
                k = f["shards"] or 8
                k = max(1, min(k, n // 10 or 1))
                for i in range(k):
                    tasks.append((pid, f["name"], i, k, max(1, n // k), _mix(seed, pid, f["name"], i), deadline,
                                  scratch, 45))
        # interleave facets so that no slow facet is left to the end
        tasks.sort(key=lambda t: (t[2] if isinstance(t[2], int) else -1))
        failures = []
        if "fail" in pre:
            failures.append((-1, pre["fail"]["facet"], pre["fail"]))
        results = [pool.apply_async(_run_task, (t,)) for t in tasks] if not failures else []
        pending = dict(enumerate(results))
        errors = []
        t_fail = None
        while pending:
            progressed = False
            for i in list(pending):
                if pending[i].ready():
                    progressed = True
                    r = pending.pop(i).get()
                    agg.setdefault(r["facet"], []).append(r["stats"])
                    if "error" in r:
                        errors.append((i, r["facet"], r["error"]))
                    if "fail" in r:
                        failures.append((i, r["facet"], r["fail"]))
                        t_fail = t_fail or time.time()
            if failures:
                break
            if time.time() > deadline + 400:
                errors.append((-1, "?", "workers did not finish"))
                break
            if not progressed:
                time.sleep(0.05)
        pool.terminate()
    if failures:
        i, facet, fl = sorted(failures, key=lambda t: t[0])[0]
        failure = (facet, fl)
    merged = _new_stats()
    merged["hashes"] = set(pre["stats"]["hashes"])
    merged["evaluations"] += pre["stats"]["evaluations"]
    per_facet = {}
    for fname, lst in agg.items():
        pf = _new_stats()
        for s in lst:
            for k in ("evaluations", "truncated"):
                pf[k] += s[k]
            for k in ("labels", "excluded"):
                for l, c in s[k].items():
                    pf[k][l] = pf[k].get(l, 0) + c
            pf["hashes"] |= s["hashes"]
            pf["samples"] += s["samples"]
        per_facet[fname] = pf
        merged["evaluations"] += pf["evaluations"]
        merged["hashes"] |= pf["hashes"]
        merged["samples"] += pf["samples"][:2]
    rules = {f["name"]: f["rule"] for f in names}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": merged["evaluations"], "distinct_nontrivial": len(merged["hashes"]),
                       "rule": "; ".join("%s: %s" % (k, v) for k, v in rules.items()),
                       "samples": merged["samples"][:12] or ["none"],
                       "per_facet": {k: {"evaluations": v["evaluations"], "distinct_nontrivial": len(v["hashes"]),
                                         "labels": dict(sorted(v["labels"].items())), "excluded": v["excluded"],
                                         "skipped_for_time": v["truncated"]} for k, v in per_facet.items()},
                       "regression_inputs_replayed": pre["n"]},
          "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if failure:
        facet, fl = failure
        path = write_replay(pid, facet, fl["case"], fl["msg"])
        from . import codec
        print("facet %s: %s" % (facet, short(fl["msg"], 3000)))
        print("case: %s" % short(codec.dumps(fl["case"]), 3000))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for i, fn, e in errors:
            print("harness error in facet %s:\n%s" % (fn, e), file=sys.stderr)
        return 2
    thin = [k for k, v in per_facet.items() if v["evaluations"] and not v["hashes"]]
    if thin:
        print("harness error: no non-trivial case in facet(s) %s" % thin, file=sys.stderr)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1fs" % (pid, merged["evaluations"], len(merged["hashes"]),
                                                            time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in ev["coverage"]["per_facet"].items():
            print("  %s: %s" % (k, v))
    return 0


def _facet_table(pid):
    try:
        mod, facets = load_facets(pid)
        return [{"name": f.name, "quick": f.quick, "thorough": f.thorough, "shards": f.shards, "rule": f.rule,
                 "cases": f.cases is not None, "strategy": f.strategy is not None} for f in mod.FACETS], getattr(mod, "SERVICE", None)
    except BaseException as e:
        return "".join(traceback.format_exception(e))


if __name__ == "__main__":
    sys.modules["harness.core"] = sys.modules["__main__"]
    sys.exit(main())
