"""Check runner: parts, workers, Hypothesis glue, evidence, replay files.

A check is a list of Part objects.  A part has a Hypothesis strategy that draws a JSON value (the case)
and a test(case, ctx) that raises Violation when the real code breaks the property on that case.  All
random choice is inside the strategy; worker w of a part is seeded with a function of VERIF_SEED and w.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 180
REPO = os.environ.get("PBX_REPO", "/repo")


class Violation(Exception):
    """The code under test breaks the property on this case."""


class HarnessError(Exception):
    """Something that is the harness's own fault."""


@contextlib.contextmanager
def sut(what):
    """Code under test runs in here: valid input must not make it raise."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit from the code under test counts too
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.format_exc(limit=-4)
        raise Violation("%s raised %s: %s\n%s" % (what, type(e).__name__, str(e)[:600], tb)) from None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


class Ctx:
    """Per-worker context: scratch folder, counters, deadline."""

    def __init__(self, wid, tier, seed, deadline, root):
        self.wid, self.tier, self.seed, self.deadline, self.root = wid, tier, seed, deadline, root
        self.labels = {}
        self.nontrivial = False
        self.n = 0

    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1

    @contextlib.contextmanager
    def scratch(self):
        """A fresh folder that is the working directory while the case runs."""
        old = os.getcwd()
        d = tempfile.mkdtemp(prefix="c", dir=self.root)
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)


class Part:
    def __init__(self, name, strategy, test, quick, thorough, workers=8, budget=(100, 1500), shrink_s=(40, 120),
                 batch=1):
        self.name, self.strategy, self.test = name, strategy, test
        self.counts = {"quick": quick, "thorough": thorough}
        self.workers = workers
        self.budget = {"quick": budget[0], "thorough": budget[1]}
        self.shrink = {"quick": shrink_s[0], "thorough": shrink_s[1]}


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def attempt(part, case, ctx):
    """The checks read what PyBox returns as its interface promises it; a result that cannot be read so is a violation."""
    try:
        part.test(case, ctx)
    except (KeyError, IndexError, TypeError, ValueError, AttributeError, FileNotFoundError) as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        raise Violation("what PyBox returned or wrote cannot be read as expected: %s: %s\n%s" % (type(e).__name__, str(e)[:600], traceback.format_exc(limit=-3))) from None


def _worker(part, wid, n, tier, seed, out, stop, root):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    t0 = time.time()
    wroot = os.path.join(root, "%s_w%d" % (part.name, wid))
    os.makedirs(wroot, exist_ok=True)
    os.chdir(wroot)
    ctx = Ctx(wid, tier, seed, t0 + part.budget[tier], wroot)
    res = {"evals": 0, "nontrivial": set(), "samples": [], "labels": {}, "fail": None, "error": None,
           "skipped": 0, "distinct": set()}
    state = {"first_fail": None}
    cur = out + ".cur"

    def too_long(*a):
        raise HarnessError("one case took over %d s" % CASE_LIMIT)

    signal.signal(signal.SIGALRM, too_long)

    def one(case):
        now = time.time()
        if state["first_fail"] is None:
            if stop.is_set() or now > ctx.deadline:
                res["skipped"] += 1
                return
        elif now - state["first_fail"] > part.shrink[tier]:
            return
        ctx.nontrivial = False
        with open(cur, "w") as f:
            json.dump(case, f)
        try:
            signal.alarm(CASE_LIMIT)
            try:
                attempt(part, case, ctx)
            finally:
                signal.alarm(0)
        except (Violation, HarnessError) as e:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
                stop.set()
            size = len(json.dumps(case))
            if res["fail"] is None or size <= res["fail"]["size"] or res["fail"].get("harness"):
                res["fail"] = {"case": case, "msg": str(e), "size": size, "part": part.name,
                               "harness": isinstance(e, HarnessError)}
            raise
        res["evals"] += 1
        h = case_hash(case)
        res["distinct"].add(h)
        if ctx.nontrivial:
            if h not in res["nontrivial"] and len(res["samples"]) < 2:
                res["samples"].append({"part": part.name, "case": case})
            res["nontrivial"].add(h)

    test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=[Phase.generate, Phase.shrink], verbosity=hypothesis.Verbosity.quiet)(
        given(part.strategy())(one))
    test = hypothesis.seed(seed * 1000003 + wid * 7919 + sum(map(ord, part.name)))(test)
    try:
        with quiet():
            test()
    except BaseException as e:
        if res["fail"] is None or res["fail"].get("harness"):
            res["error"] = "".join(traceback.format_exception(e))[-6000:]
    res["labels"] = ctx.labels
    res["wall"] = time.time() - t0
    with open(out, "wb") as f:
        pickle.dump(res, f)
    shutil.rmtree(wroot, ignore_errors=True)


def run_part(part, tier, seed, root):
    n = part.counts[tier]
    if n <= 0:
        return []
    w = max(1, min(part.workers, n))
    share = -(-n // w)
    ctxm = mp.get_context("fork")
    stop = ctxm.Event()
    procs, outs = [], []
    for i in range(w):
        out = os.path.join(root, "%s_%d.pkl" % (part.name, i))
        p = ctxm.Process(target=_worker, args=(part, i, share, tier, seed, out, stop, root))
        p.start()
        procs.append(p)
        outs.append(out)
    limit = time.time() + part.budget[tier] + part.shrink[tier] + 240
    for p in procs:
        p.join(max(1.0, limit - time.time()))
    results = []
    for p, out in zip(procs, outs):
        if p.is_alive():
            p.kill()
            p.join()
        if os.path.exists(out):
            with open(out, "rb") as f:
                results.append(pickle.load(f))
        else:
            crash = None
            if p.exitcode is not None and p.exitcode < 0 and os.path.exists(out + ".cur"):
                with open(out + ".cur") as f:
                    case = json.load(f)
                kind, msg = replay_case(part, case, tier, seed, root)
                if kind in ("crash", "violation"):
                    crash = {"case": case, "part": part.name, "size": len(json.dumps(case)), "harness": False,
                             "msg": "the code under test ended the process (signal %d): %s" % (-p.exitcode, msg)}
            results.append({"evals": 0, "nontrivial": set(), "distinct": set(), "samples": [], "labels": {},
                            "fail": crash, "skipped": 0,
                            "error": None if crash else "worker of part %s ended without a result (exit %s)" % (part.name, p.exitcode)})
    return results


def replay_case(part, case, tier, seed, root):
    """Run one case outside Hypothesis, in a forked child.  None, or the violation text."""
    ctxm = mp.get_context("fork")
    q = os.path.join(root, "replay_%d.pkl" % time.monotonic_ns())

    def child():
        r = os.path.join(root, "rp%d" % os.getpid())
        os.makedirs(r, exist_ok=True)
        os.chdir(r)
        ctx = Ctx(0, tier, seed, time.time() + 1e9, r)
        res = (None, None)
        try:
            with quiet():
                attempt(part, case, ctx)
        except Violation as e:
            res = ("violation", str(e))
        except BaseException as e:
            res = ("error", "".join(traceback.format_exception(e))[-4000:])
        with open(q, "wb") as f:
            pickle.dump(res, f)
        os._exit(0)

    p = ctxm.Process(target=child)
    p.start()
    p.join(300)
    if p.is_alive():
        p.kill()
        p.join()
        return ("error", "replay timed out")
    if not os.path.exists(q):
        return ("crash", "the process died while replaying (exit %s)" % p.exitcode)
    with open(q, "rb") as f:
        return pickle.load(f)


def run_check(pid, check, tier, seed):
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="pbx_%s_" % pid)
    parts = {p.name: p for p in check.PARTS}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": check.RULE, "samples": [], "labels": {}, "parts": {}}
    violation, errors = None, []
    try:
        # 1. Regression tier: shrunk cases of defects found earlier (they hold now).
        rdir = os.path.join(VERIF, "regress", pid)
        reg = 0
        if os.path.isdir(rdir):
            for name in sorted(os.listdir(rdir)):
                with open(os.path.join(rdir, name)) as f:
                    r = json.load(f)
                if r["part"] not in parts:
                    errors.append("regression case %s names an unknown part" % name)
                    continue
                kind, msg = replay_case(parts[r["part"]], r["case"], tier, seed, root)
                reg += 1
                if kind in ("violation", "crash"):
                    violation = {"case": r["case"], "msg": msg, "part": r["part"], "from": "regress/%s/%s" % (pid, name)}
                    break
                if kind == "error":
                    errors.append(msg)
        cov["regression_cases"] = reg
        # 2. Generated cases.
        if violation is None and not errors:
            for part in check.PARTS:
                results = run_part(part, tier, seed, root)
                ev = sum(r["evals"] for r in results)
                nt = set().union(*[r["nontrivial"] for r in results]) if results else set()
                ds = set().union(*[r["distinct"] for r in results]) if results else set()
                cov["evaluations"] += ev
                cov["distinct_nontrivial"] += len(nt)
                cov["parts"][part.name] = {"evaluations": ev, "distinct": len(ds), "distinct_nontrivial": len(nt),
                                           "skipped_after_budget": sum(r["skipped"] for r in results),
                                           "wall_s": round(max([r.get("wall", 0) for r in results] or [0]), 1)}
                for r in results:
                    for k, v in r["labels"].items():
                        cov["labels"][k] = cov["labels"].get(k, 0) + v
                samples = [s for r in results for s in r["samples"]]
                samples.sort(key=lambda s: len(json.dumps(s)))
                cov["samples"] += samples[:3]
                fails = [r["fail"] for r in results if r["fail"]]
                real = [f for f in fails if not f["harness"]]
                if real:
                    real.sort(key=lambda f: f["size"])
                    violation = real[0]
                    break
                errors += [r["error"] for r in results if r["error"]]
                errors += [f["msg"] for f in fails if f["harness"]]
                if errors:
                    break
        replay = None
        if violation is not None:
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            replay = os.path.join(VERIF, "evidence", "replay", "%s_%s_seed%d.json" % (pid, tier, seed))
            kind, msg = replay_case(parts[violation["part"]], violation["case"], tier, seed, root)
            with open(replay, "w") as f:
                json.dump({"property": pid, "part": violation["part"], "case": violation["case"],
                           "message": violation["msg"], "reproduced_outside_hypothesis": kind in ("violation", "crash"),
                           "seed": seed, "tier": tier}, f, indent=1)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    known = getattr(check, "KNOWN", None)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    if not cov["samples"]:
        cov["samples"] = [violation["case"]] if violation else []
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))
    print("%s %s: %d cases, %d distinct non-trivial, %d regression cases, %.1f s" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["regression_cases"], time.time() - t0))
    for k in sorted(cov["parts"]):
        print("  part %s: %s" % (k, json.dumps(cov["parts"][k])))
    print("  labels:", json.dumps(dict(sorted(cov["labels"].items()))))
    if violation is not None:
        print(violation["msg"][:4000])
        print("case:", json.dumps(violation["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        print("HARNESS ERROR:\n" + "\n".join(e for e in errors[:3]), file=sys.stderr)
        return 2
    return 0
