"""Runner for the monitors: seeds, cases, worker pool, verdicts, known findings, evidence.

A check module defines
  PROPERTY = "Qnn"; RULE = "..."; GROUPS = {name: (function(t), quick_count, thorough_count)}
  NEED = {counter: minimum}          # monitors that must have observed something
Each (group, index) is one case with its own PRNG derived from VERIF_SEED, so any case replays alone:
  check.py Qnn --case group:index
Verdicts: exit 0 held, exit 1 VIOLATION (also: a case that never ends, raises, or returns what cannot be
judged), exit 3 inconclusive (a monitor in NEED was not reached).
"""
import contextlib, io, json, os, signal, sys, time, traceback, zlib, warnings
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MQ_REPO", "/repo")


class Fail(Exception):
    pass


class CpuBudget(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return str(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if x == x and abs(x) != float("inf") else str(x)
    if isinstance(x, complex):
        return str(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return str(x)[:300]


class T:
    """One case: its PRNG, what it observed, and what went wrong."""

    def __init__(self, prop, group, idx, seed, tier):
        import numpy as np
        self.prop, self.group, self.idx, self.seed, self.tier = prop, group, idx, seed, tier
        self.entropy = [seed, zlib.crc32(prop.encode()), zlib.crc32(group.encode()), idx]
        self.rng = np.random.Generator(np.random.PCG64(self.entropy))
        self.counters = {}
        self.sigs = set()
        self.fails = []
        self.samples = []
        self.info = {}
        self.evals = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def sig(self, *parts):
        """Register a distinct, non-trivial thing observed."""
        self.sigs.add(zlib.crc32(repr(parts).encode()))

    def params(self, **kw):
        self.info.update(kw)

    def sample(self, **kw):
        self.samples.append(jsonable(dict(self.info, **kw)))

    def fail(self, key, msg, **detail):
        if len(self.fails) < 12:
            self.fails.append(dict(key=key, msg=msg, detail=jsonable(detail), params=jsonable(self.info)))

    def ev(self, n=1):
        self.evals += n

    # ---- common oracles
    def close(self, key, got, want, rtol=1e-9, atol=1e-12, msg="", **detail):
        """got must equal want within tolerance (numbers; complex with negligible imaginary part allowed)."""
        self.evals += 1
        try:
            g = complex(got)
            ok = abs(g - want) <= atol + rtol * abs(want)
        except (TypeError, ValueError):
            ok, g = False, got
        if not ok:
            self.fail(key, f"{msg or key}: got {got!r}, expected {want!r}", **detail)
        return ok

    def closev(self, key, got, want, rtol=1e-9, atol=1e-12, msg="", **detail):
        got = list(got)
        if len(got) < len(want):
            self.fail(key, f"{msg or key}: got {len(got)} values, expected {len(want)}", got=got, want=list(want))
            return False
        for i, w in enumerate(want):
            if not self.close(key, got[i], w, rtol, atol, f"{msg or key}[{i}]", **detail):
                return False
        return True

    def require(self, key, cond, msg, **detail):
        self.evals += 1
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)


class sut:
    """Context for running code under test: output silenced, exceptions become violations of the case."""

    def __init__(self, t, key, allow=()):
        self.t, self.key, self.allow = t, key, allow
        self.raised = None

    def __enter__(self):
        self._o, self._e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, et, ev, tb):
        sys.stdout, sys.stderr = self._o, self._e
        if et is None:
            return False
        if issubclass(et, (CpuBudget, KeyboardInterrupt, Fail, MemoryError)):
            return False
        if issubclass(et, Exception):
            self.raised = ev
            if not (self.allow and issubclass(et, self.allow)):
                lines = traceback.format_exception(et, ev, tb)[-3:]
                self.t.fail(self.key + ":exception", f"{self.key}: {et.__name__}: {ev}", trace="".join(lines)[-600:])
            return True
        return False


def install(t):
    """Make the code under test deterministic and fast for this case."""
    import numpy as np
    if not hasattr(np.random, "_mq_orig_default_rng"):
        np.random._mq_orig_default_rng = np.random.default_rng
    orig = np.random._mq_orig_default_rng
    ctr = [0]

    def default_rng(seed=None):
        if seed is None:
            ctr[0] += 1
            return orig(t.entropy + [7, ctr[0]])
        return orig(seed)
    np.random.default_rng = default_rng
    np.random.seed(int(zlib.crc32(repr(t.entropy).encode())))
    time.sleep = lambda *_: None


def _alarm(*_):
    raise CpuBudget()


def run_case(mod, group, idx, seed, tier):
    fn, q, th = mod.GROUPS[group][:3]
    budget = float(os.environ.get("MQ_BUDGET") or getattr(mod, "CPU_BUDGET", 90) * (1 if tier == "quick" else 3))
    t = T(mod.PROPERTY, group, idx, seed, tier)
    if getattr(mod, "ROUND", False) and idx % 3 == 2:
        from mq.fam import RoundRng
        t.rng = RoundRng(t.rng)
        t.count("round_number_cases")
    install(t)
    status = "ok"
    t0 = time.process_time()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, budget)
    so, se = sys.stdout, sys.stderr
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(t)
    except CpuBudget:
        # cases take 0-10 s of cpu on the code as it is; a case that uses up the budget does not end
        status = "hang"
        t.fail("no-termination", f"the case did not end within {budget} s of cpu time")
    except Fail:
        pass
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = any(REPO + "/" in (f.filename or "") for f in frames)
        t.fail("exception" if inside else "malformed-result",
               f"{type(e).__name__}: {e} (" + ("raised by the code under test" if inside else
               "the result of the code under test could not be judged") + ")",
               trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr = so, se
    return dict(group=group, idx=idx, status=status, fails=t.fails, counters=t.counters, sigs=list(t.sigs),
                samples=t.samples[:2], evals=t.evals, cpu=time.process_time() - t0, params=jsonable(t.info))


_MOD = None


def _work(a):
    return run_case(_MOD, *a)


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e for e in d["findings"] if e["property"] == prop and e["status"] == "known"}


def main(mod, argv):
    global _MOD
    _MOD = mod
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    i = 0
    while i < len(argv):
        if argv[i] == "--case":
            only = argv[i + 1]; i += 1
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        elif argv[i] == "-v":
            verbose = True
        elif argv[i] == "--replay":
            with open(argv[i + 1]) as f:
                r = json.load(f)
            seed, tier, only = r["seed"], r["tier"], f"{r['group']}:{r['idx']}"; i += 1
        i += 1
    tasks = []
    scale = float(os.environ.get("MQ_SCALE", "1"))
    for g, spec in mod.GROUPS.items():
        n = int((spec[2] if tier == "thorough" else spec[1]) * scale)
        for k in range(n):
            tasks.append((g, k, seed, tier))
    if only:
        g, k = only.rsplit(":", 1)
        tasks = [(g, int(k), seed, tier)] if k != "*" else [x for x in tasks if x[0] == g]
    # spread groups so that slow ones start early
    tasks.sort(key=lambda a: (a[1], a[0]))
    results = []
    listed = load_known(mod.PROPERTY)
    stop = lambda r: os.environ.get("MQ_STOP") and any(f["key"] not in listed for f in r["fails"])  # experiments: the first violation is enough
    jobs = int(os.environ.get("MQ_JOBS", "8"))
    if len(tasks) == 1 or jobs == 1:
        for a in tasks:
            results.append(_work(a))
            if stop(results[-1]):
                break
    else:
        with mp.get_context("fork").Pool(jobs, maxtasksperchild=getattr(mod, "MAXTASKS", 400)) as pool:
            hangs = 0
            for r in pool.imap_unordered(_work, tasks, chunksize=getattr(mod, "CHUNK", 1)):
                results.append(r)
                hangs += r["status"] == "hang"
                if hangs >= 3 or stop(r):
                    pool.terminate()
                    break
    results.sort(key=lambda r: (r["group"], r["idx"]))
    known = load_known(mod.PROPERTY)
    known_seen, viol, bad = {}, [], []
    counters, sigs, samples, evals = {}, set(), [], 0
    pergroup = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update((r["group"], s) for s in r["sigs"])
        evals += r["evals"]
        pg = pergroup.setdefault(r["group"], dict(cases=0, oracle_evaluations=0, cpu_s=0.0, samples=0))
        pg["cases"] += 1
        pg["oracle_evaluations"] += r["evals"]
        pg["cpu_s"] = round(pg["cpu_s"] + r["cpu"], 2)
        if pg["samples"] < 1 and r["samples"]:
            pg["samples"] += 1
            samples.append(dict(case=f"{r['group']}:{r['idx']}", **r["samples"][0]))
        if r["status"] != "ok":
            bad.append((r["group"], r["idx"], r["status"]))
        for f in r["fails"]:
            if f["key"] in known:
                known_seen.setdefault(f["key"], 0)
                known_seen[f["key"]] += 1
            else:
                viol.append((r, f))
    for pg in pergroup.values():
        pg.pop("samples")
    for k in sorted(known_seen):
        print(f"KNOWN-FINDING: property={mod.PROPERTY} {known[k]['what']} [{k}; seen in {known_seen[k]} cases]")
    inconclusive = []
    if not only:
        for k, v in getattr(mod, "NEED", {}).items():
            if counters.get(k, 0) < v:
                inconclusive.append(f"monitor counter {k}={counters.get(k, 0)} below {v}")
    inconclusive += [f"case {g}:{i}: {s}" for g, i, s in bad]
    rc = 0
    if viol:
        rc = 1
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for r, f in viol:
            if f["key"] in seen and not verbose:
                continue
            seen.add(f["key"])
            path = os.path.join(d, f"{mod.PROPERTY}-{len(seen)}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=mod.PROPERTY, seed=seed, tier=tier, group=r["group"], idx=r["idx"], fail=f), fh, indent=1)
            if len(seen) <= 10:
                print(f"  {r['group']}:{r['idx']} [{f['key']}] {f['msg']}")
                if verbose or only:
                    print(json.dumps(f, indent=1)[:3000])
                print(f"VIOLATION property={mod.PROPERTY} replay={path}")
    elif inconclusive:
        rc = 3
    for s in inconclusive[:10]:
        print("INCONCLUSIVE", s)
    ev = dict(property=mod.PROPERTY, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE,
                            oracle_comparisons=evals, monitor_counters=dict(sorted(counters.items())),
                            groups=pergroup, samples=samples[:12] or [dict(case=f"{r['group']}:{r['idx']}", params=r["params"]) for r in results[:3]],
                            known_findings_seen=known_seen, inconclusive=inconclusive[:20]),
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", mod.PROPERTY + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    slow = sorted(results, key=lambda r: -r["cpu"])[:1]
    print(f"{mod.PROPERTY} {tier} seed={seed}: {len(results)} cases, {len(sigs)} distinct, {evals} oracle comparisons, "
          f"{len(viol)} violations, {len(known_seen)} known, {time.time()-t0:.1f}s"
          + (f" (slowest {slow[0]['group']}:{slow[0]['idx']} {slow[0]['cpu']:.1f}s cpu)" if slow else ""))
    sys.stdout.flush()
    return rc
