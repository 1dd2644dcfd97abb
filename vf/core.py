"""Runs one property: generated cases on several processes, shrinking, replay, known findings, evidence."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, shutil, sys, tempfile, time, traceback

from . import build
from .driver import Crash, DriverBroken

VERIF = build.VERIF
FAST = bool(os.environ.get("VERIF_FAST"))     # mutation campaigns: only whether a violation is found
SHRINK_S = 0 if FAST else 25


class Violation(Exception):
    """The property does not hold for this case."""


class Prop:
    """One property. Subclasses give id, strategy(), run(case, env)."""
    id = None
    needs = ("lib",)          # of lib, full, plain
    quick = 200               # cases per shard
    thorough = 3000
    level = "exploration"
    rule = ""
    assumptions = ()
    shards = 8
    tier = "quick"

    def strategy(self):
        raise NotImplementedError

    def fixed_cases(self):
        """Cases always run first (regressions, enumerated corners)."""
        return []

    def setup(self, paths, tmp):
        """Per-process environment for run()."""
        from .driver import Driver
        env = Env()
        env.tmp = tmp
        env.paths = paths
        env.p = paths.get("lib") or paths.get("full") or paths.get("plain")
        env.drv = Driver(env.p.drv, keep=os.path.join(tmp))
        return env

    def run(self, case, env):
        """Raises Violation, or returns (nontrivial, labels)."""
        raise NotImplementedError

    def shrink(self, case):
        """Smaller candidates for a failing case, by default: a list (or its 'ops') without some of its elements."""
        if isinstance(case, list):
            lst, wrap = case, lambda l: l
        elif isinstance(case, dict) and isinstance(case.get("ops"), list):
            lst, wrap = case["ops"], lambda l: dict(case, ops=l)
        else:
            return
        n = len(lst)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if n - len(lst[i:i + size]) > 0:
                    yield wrap(lst[:i] + lst[i + size:])
            size //= 2

    def extra(self, ctx):
        """Work other than generated cases (libFuzzer campaigns, enumerations); may raise Violation, returns dict."""
        return {}


class Env:
    pass


def load(pid):
    m = importlib.import_module("vf.props." + pid.lower())
    return m.PROP()


def build_for(prop):
    return {n: getattr(build, n)() for n in prop.needs}


def ckey(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def scratch(pid):
    d = tempfile.mkdtemp(prefix="vf-%s-" % pid.lower(), dir=os.environ.get("VERIF_TMP") or None)
    return d


def clear(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def case_dir(env):
    """A fresh empty directory for one case."""
    d = os.path.join(env.tmp, "case")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def check(prop, case, env):
    """Runs one case; any death of the code under test is a violation."""
    try:
        return prop.run(case, env)
    except Crash as e:
        raise Violation("crash: %s" % e)


def worker(pid, paths, seed, shard, nshards, tier, stop, q):
    import warnings
    warnings.simplefilter("ignore")
    prop = load(pid)
    prop.tier = tier
    tmp = scratch(pid)
    st = {"eval": 0, "keys": set(), "labels": collections.Counter(), "samples": [], "fail": None, "error": None, "skipped": 0}
    env = None
    try:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        env = prop.setup(paths, tmp)
        best = [None, None]
        first = [None]

        def one(case):
            key = ckey(case)
            try:
                nontriv, labels = check(prop, case, env)
            except Violation as e:
                if best[0] is None or len(key) < len(best[0]):
                    best[0], best[1] = key, str(e)
                if first[0] is None:
                    first[0] = time.time()
                    stop.set()
                raise
            st["eval"] += 1
            for l in labels:
                st["labels"][l] += 1
            if nontriv:
                st["keys"].add(hashlib.sha1(key.encode()).digest())
                if len(st["samples"]) < 2 and len(key) < 4000 and st["eval"] > 5:
                    st["samples"].append(case)
            return nontriv

        try:
            for i, c in enumerate(prop.fixed_cases()):
                if i % nshards == shard:
                    one(c)
        except Violation:
            pass
        n = prop.quick if tier == "quick" else prop.thorough
        strat = prop.strategy() if n and first[0] is None else None
        if strat is not None:
            @hypothesis.seed(seed * 1000003 + shard * 7919 + 17)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink))
            @given(strat)
            def test(case):
                if stop.is_set() and first[0] is None:
                    st["skipped"] += 1
                    return
                if first[0] is not None and time.time() - first[0] > SHRINK_S:
                    return
                one(case)
            try:
                test()
            except Violation:
                pass
            except Exception as e:
                if best[0] is None:
                    raise
        st["fail"] = (best[0], best[1]) if best[0] is not None else None
    except BaseException:
        st["error"] = traceback.format_exc()
    finally:
        try:
            if env is not None:
                for a in ("drv", "drv2"):
                    d = getattr(env, a, None)
                    if d is not None:
                        d.stop()
        except Exception:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
    st["keys"] = list(st["keys"])
    q.put((shard, st))


def replay_once(prop, paths, case):
    tmp = scratch(prop.id)
    env = prop.setup(paths, tmp)
    try:
        check(prop, case, env)
        return None
    except Violation as e:
        return str(e)
    finally:
        d = getattr(env, "drv", None)
        if d is not None:
            d.stop()
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(pid):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                case, what = rest.split(" ", 1)
                assert case.startswith("case=")
                out.append((os.path.join(VERIF, case[5:]), what))
    return out


def minimize(prop, paths, case, msg, budget=40):
    """Greedy list minimisation after Hypothesis' own shrinking."""
    tmp = scratch(prop.id)
    env = prop.setup(paths, tmp)
    t0 = time.time()
    try:
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            for c in prop.shrink(case):
                if time.time() - t0 > budget:
                    break
                try:
                    check(prop, c, env)
                except Violation as e:
                    if " refers to " in str(e) and " refers to " not in msg:
                        continue    # the element that was referred to is what was removed
                    case, msg, progress = c, str(e), True
                    break
                except Exception:
                    continue        # not a valid case
    finally:
        d = getattr(env, "drv", None)
        if d is not None:
            d.stop()
        shutil.rmtree(tmp, ignore_errors=True)
    return case, msg


def report(prop, case, msg, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s-%s.json" % (prop.id, hashlib.sha1(ckey(case).encode()).hexdigest()[:10]))
    with open(fn, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "message": msg, "case": case}, f, indent=1)
    print("message: " + msg[:3000])
    print("VIOLATION property=%s replay=%s" % (prop.id, fn))
    sys.stdout.flush()


def run_property(pid, tier, seed):
    t0 = time.time()
    prop = load(pid)
    paths = build_for(prop)
    t1 = time.time()
    known = known_findings(pid)
    for fn, what in known:
        case = json.load(open(fn))["case"]
        if replay_once(prop, paths, case) is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    q = ctx.Queue()
    ns = int(os.environ.get("VERIF_SHARDS", prop.shards))
    procs = [ctx.Process(target=worker, args=(pid, paths, seed, i, ns, tier, stop, q)) for i in range(ns)]
    for p in procs:
        p.start()
    res = {}
    while len(res) < ns:
        try:
            k, st = q.get(timeout=5)
            res[k] = st
        except Exception:
            for i, p in enumerate(procs):
                if not p.is_alive() and i not in res:
                    try:
                        while True:
                            k, st = q.get(timeout=1)
                            res[k] = st
                    except Exception:
                        pass
                    if i not in res:
                        res[i] = {"eval": 0, "keys": [], "labels": {}, "samples": [], "fail": None, "skipped": 0,
                                  "error": "worker died with exit code %s" % p.exitcode}
    for p in procs:
        p.join()
    extra = {}
    fails = sorted([st["fail"] for st in res.values() if st["fail"]], key=lambda f: len(f[0]))
    errors = [st["error"] for st in res.values() if st["error"]]
    if not fails:
        tmp = scratch(pid)
        try:
            extra = prop.extra({"paths": paths, "tier": tier, "seed": seed, "tmp": tmp}) or {}
            if extra.get("fail"):
                c, m = extra.pop("fail")
                fails.append((ckey(c), m))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    viol = 0
    for key, msg in fails:
        case = json.loads(key)
        msgs = [replay_once(prop, paths, case) for _ in range(3)]
        if all(m is not None for m in msgs):
            small, m = (case, msgs[0]) if FAST else minimize(prop, paths, case, msgs[0])
            if replay_once(prop, paths, small) is not None:
                case, msgs = small, [m]
            report(prop, case, msgs[0], seed)
            viol += 1
            break
        print("note: a failure did not replay 3 of 3 times and is not reported: %s" % msg[:1500])
    keys = set()
    labels = collections.Counter()
    samples = []
    for k in sorted(res):
        st = res[k]
        keys.update(st["keys"])
        labels.update(st["labels"])
        samples += st["samples"]
    ev = sum(st["eval"] for st in res.values()) + extra.pop("evaluations", 0)
    nt = len(keys) + extra.pop("distinct_nontrivial", 0)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": prop.level,
           "coverage": dict({"evaluations": ev, "distinct_nontrivial": nt, "rule": prop.rule,
                             "samples": samples[:4] + extra.pop("samples", []),
                             "classes": dict(sorted(labels.items())),
                             "known_findings_excluded": len(known), "build_s": round(t1 - t0, 1)}, **extra),
           "assumptions": list(prop.assumptions), "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, tier, ev, nt, time.time() - t0, t1 - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for l, c in sorted(labels.items()):
            print("   %-40s %d" % (l, c))
    if viol:
        return 1
    if errors:
        print(errors[0])
        return 2
    return 0
