"""Runner: generated-case search with Hypothesis, sharded, deterministic, replayable.

A property module (props/cNN.py) defines
    ID     = "C05"
    SUBS   = [Sub(...), ...]
    ASSUME = ["..."]           (optional)
Each Sub pairs a generator of plain JSON-able cases with a check of one case against an
oracle.  The check signals a broken property by raising Violation; anything the code under
test raises where the property forbids it is turned into a Violation by `call`.
"""
import hashlib
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8
CASE_CPU_S = 30  # one case takes milliseconds; this only ends a loop that does not end
SHRINK_S = 25


_clocks = {n: getattr(time, n) for n in ("time", "monotonic", "time_ns", "monotonic_ns")}
_ahead = 0.0
monotonic = time.monotonic


def pass_time(seconds):
    """The program's clocks run ahead; this module's and the search's do not."""
    global _ahead
    if not _ahead:
        time.time = lambda: _clocks["time"]() + _ahead
        time.monotonic = lambda: _clocks["monotonic"]() + _ahead
        time.time_ns = lambda: _clocks["time_ns"]() + int(_ahead * 1e9)
        time.monotonic_ns = lambda: _clocks["monotonic_ns"]() + int(_ahead * 1e9)
    _ahead += max(seconds, 1e-9)


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """The code under test used CASE_CPU_S of processor time on one case."""


class Sub:
    def __init__(self, name, check, rule, strategy=None, cases=None, quick=800, thorough=None,
                 max_shards=SHARDS, quick_cases=None, runner=None, confirm=0, times=2):
        self.name, self.check, self.rule = name, check, rule
        self.strategy = strategy  # () -> hypothesis strategy of cases
        self.cases = cases  # () -> iterable of cases, enumerated completely (split over shards)
        self.quick_cases = quick_cases  # () -> smaller iterable for the quick tier
        self.quick = quick * times
        self.thorough = thorough if thorough is not None else quick * 40
        self.max_shards = max_shards
        self.confirm = confirm  # a failure with real processes or sockets counts if one of so many repetitions fails too
        self.runner = runner  # (tier, seed, shard, nshards, ctx) -> failure or None, for searches of another engine


class Ctx:
    """Counters of one sub-check in one shard."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_evals = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.findings = {}
        self._flag = False

    def nontrivial(self, yes=True):
        if yes:
            self._flag = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def finding(self, fid, message):
        """The code deviates exactly as the finding `fid` describes: a violation unless it is listed."""
        if fid not in known_ids():
            raise Violation("%s (%s)" % (message, fid))
        self.findings[fid] = self.findings.get(fid, 0) + 1


# ---------------------------------------------------------------- code under test
_K = None


def sut():
    """The package under test, imported from REPO and from nowhere else."""
    global _K
    if _K is None:
        import logging

        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        root = logging.getLogger()
        root.handlers[:] = [logging.NullHandler()]
        root.setLevel(logging.DEBUG)  # debug output must be formattable, so format it
        root.addHandler(_Formatting())
        import asyncio
        # Current documented usage of the clients: a loop is set before they are built.
        asyncio.set_event_loop(asyncio.new_event_loop())
        import knx_stack

        f = os.path.realpath(knx_stack.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("knx_stack imported from %s" % f)
        _K = knx_stack
    return _K


def _Formatting():
    import logging

    class H(logging.Handler):
        def emit(self, record):
            record.getMessage()

    h = H()
    return h


def from_repo(exc):
    """Did the exception pass through the code under test?"""
    tb = exc.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def call(what, f, *a, **kw):
    """Call the code under test where the property says it works."""
    try:
        return f(*a, **kw)
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        raise Violation("%s failed: %s: %s" % (what, type(e).__name__, e)) from e


def refused(f, *a, **kw):
    """Call the code under test where it must refuse; True when it raised an ordinary error."""
    try:
        f(*a, **kw)
    except Violation:
        raise
    except Exception:
        return True
    return False


def attempt(f, *a, **kw):
    """(True, result) or (False, exception)."""
    try:
        return True, f(*a, **kw)
    except Violation:
        raise
    except Exception as e:
        return False, e


def require(cond, fmt, *a):
    if not cond:
        raise Violation(fmt % a if a else fmt)


def eq(what, got, want):
    try:
        same = got == want
        same = bool(same)
    except Exception as e:
        raise Violation("%s: result cannot be compared (%s: %s)" % (what, type(e).__name__, e))
    if not same:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


# ---------------------------------------------------------------- one case
def _alarm(*_):
    raise Hang()


def run_case(sub, case, ctx):
    """Returns None, or the violation message."""
    ctx.evaluations += 1
    ctx._flag = False
    key = hashlib.blake2b(json.dumps([sub.name, case], sort_keys=True).encode(), digest_size=8).digest()
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        sub.check(case, ctx)
        msg = None
    except Violation as e:
        msg = str(e)
    except Hang:
        msg = "no answer after %d s of processor time" % CASE_CPU_S
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return msg, True
    except (Exception, SystemExit) as e:
        if from_repo(e):
            msg = "unexpected %s: %s" % (type(e).__name__, e)
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if ctx._flag:
        ctx.nontrivial_evals += 1
        if key not in ctx.hashes:
            ctx.hashes.add(key)
            if len(ctx.samples) < 2 or (len(ctx.samples) < 4 and ctx.evaluations > 100):
                if len(json.dumps(case)) < 3000:
                    ctx.samples.append({"check": sub.name, "case": case})
    return msg, False


# ---------------------------------------------------------------- worker
def worker(prop, tier, seed, shard, nshards, out, only=None):
    import importlib

    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    signal.signal(signal.SIGVTALRM, _alarm)
    import gen
    gen.DEEP = tier == "thorough"
    mod = importlib.import_module("props." + prop.lower())
    sut()
    res = {"subs": {}, "fail": None, "error": None}
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        if shard >= sub.max_shards:
            continue
        ctx = Ctx()
        try:
            fail = _run_sub(sub, tier, seed, shard, min(nshards, sub.max_shards), ctx)
        except BaseException:
            res["error"] = "%s: %s" % (sub.name, traceback.format_exc())
            fail = None
        res["subs"][sub.name] = dict(
            evaluations=ctx.evaluations, nontrivial=ctx.nontrivial_evals, hashes=ctx.hashes,
            labels=ctx.labels, samples=ctx.samples, findings=ctx.findings)
        if fail or res["error"]:
            res["fail"] = fail
            break
    with open(out, "wb") as f:
        pickle.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def _run_sub(sub, tier, seed, shard, nshards, ctx):
    fail = _search_sub(sub, tier, seed, shard, nshards, ctx)
    for again in range(2):
        if not fail or not sub.confirm:
            break
        for _ in range(sub.confirm):
            msg, _ = run_case(sub, fail["case"], Ctx())
            if msg:
                return fail
        ctx.label("not reproduced")
        sys.stderr.write("not reproduced: %s\n%s\n" % (fail["message"], json.dumps(fail["case"])))
        fail = _search_sub(sub, tier, seed + 7919 * (again + 1), shard, nshards, ctx) if not again else None
    return fail


def _search_sub(sub, tier, seed, shard, nshards, ctx):
    if sub.runner is not None:
        return sub.runner(tier, seed, shard, nshards, ctx)
    if sub.cases is not None:
        it = sub.quick_cases if tier == "quick" and sub.quick_cases else sub.cases
        for i, case in enumerate(it()):
            if i % nshards != shard:
                continue
            msg, _ = run_case(sub, case, ctx)
            if msg:
                return {"sub": sub.name, "case": case, "message": msg}
        return None

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    n = sub.quick if tier == "quick" else sub.thorough
    n = max(1, -(-n // nshards))
    sseed = int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, sub.name, shard)).encode()).digest()[:8], "big")
    st = {"best": None, "t0": None}

    class Found(Exception):
        pass

    @hypothesis.seed(sseed)
    @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
              verbosity=hypothesis.Verbosity.quiet)
    @given(sub.strategy())
    def test(case):
        if st["t0"] is not None and monotonic() - st["t0"] > SHRINK_S:
            return  # shrinking budget used up; the best case so far is kept
        msg, hang = run_case(sub, case, ctx)
        if msg:
            size = len(json.dumps(case))
            if st["best"] is None or size <= st["best"][0]:
                st["best"] = (size, case, msg)
            if st["t0"] is None:
                st["t0"] = monotonic()
            if hang:
                st["t0"] = 0
            raise Found()

    try:
        test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) or st["best"] is None:
            raise
    if st["best"]:
        return {"sub": sub.name, "case": st["best"][1], "message": st["best"][2]}
    return None


# ---------------------------------------------------------------- parent
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["status"] == "known"]


_known = None


def known_ids():
    global _known
    if _known is None:
        _known = {k["id"] for k in load_known()}
    return _known


def replay(prop, path):
    import importlib

    signal.signal(signal.SIGVTALRM, _alarm)
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("props." + prop.lower())
    sut()
    sub = {s.name: s for s in mod.SUBS}[r["sub"]]
    msg, _ = run_case(sub, r["case"], Ctx())
    return msg


def selftest():
    """Everything the checks need is there."""
    import importlib

    import hypothesis

    sut()
    n = 0
    for f in sorted(os.listdir(os.path.join(HERE, "props"))):
        if f.startswith("c") and f.endswith(".py"):
            n += len(importlib.import_module("props." + f[:-3]).SUBS)
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        json.load(f)
    load_known()
    print("hypothesis %s, %d checks" % (hypothesis.__version__, n))
    return 0


def main(argv):
    import argparse

    if argv[:1] == ["--selftest"]:
        return selftest()

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=SHARDS)
    ap.add_argument("--only", action="append")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    if a.worker is not None:
        worker(prop, a.tier, a.seed, a.worker, a.shards, a.out, a.only)
        return 0
    if a.replay:
        msg = replay(prop, a.replay)
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        print("replay passes")
        return 0
    t0 = time.monotonic()
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent-hyp")
    limit = 600 if a.tier == "quick" else 6 * 3600
    with tempfile.TemporaryDirectory(prefix="vh-") as tmp:
        procs = []
        env["VH_TMP"] = tmp
        for i in range(a.shards):
            out = os.path.join(tmp, "%d.pkl" % i)
            cmd = [sys.executable, "-B", os.path.join(HERE, "run.py"), prop, "--tier", a.tier, "--seed", str(a.seed),
                   "--worker", str(i), "--out", out, "--shards", str(a.shards)]
            for o in a.only or []:
                cmd += ["--only", o]
            procs.append((subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                           stderr=open(out + ".err", "wb"), cwd=tmp), out))
        results, crashed = [], []
        deadline = time.monotonic() + limit
        for p, out in procs:
            try:
                p.wait(max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):
                with open(out, "rb") as f:
                    results.append(pickle.load(f))
            else:
                with open(out + ".err", "rb") as f:
                    crashed.append("worker ended with %s\n%s" % (p.returncode, f.read()[-3000:].decode("utf8", "replace")))
    import importlib

    mod = importlib.import_module("props." + prop.lower())
    evaluations, distinct, labels, samples, subs, seen = 0, 0, {}, [], {}, {}
    for sub in mod.SUBS:
        parts = [r["subs"][sub.name] for r in results if sub.name in r["subs"]]
        hashes = set().union(*[p["hashes"] for p in parts]) if parts else set()
        ev = sum(p["evaluations"] for p in parts)
        evaluations += ev
        distinct += len(hashes)
        lab = {}
        for p in parts:
            for k, v in p["labels"].items():
                lab[k] = lab.get(k, 0) + v
            for k, v in p["findings"].items():
                seen[k] = seen.get(k, 0) + v
        subs[sub.name] = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": sub.rule,
                          "classes": dict(sorted(lab.items()))}
        got = [s for p in parts for s in p["samples"]]
        samples += got[:1] + got[len(got) // 2:len(got) // 2 + 1]
    fails = [r["fail"] for r in results if r["fail"]]
    errors = [r["error"] for r in results if r["error"]] + crashed
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in mod.SUBS),
            "samples": samples, "per_check": subs,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
    }
    for k in load_known():
        if k["property"] == prop and k["id"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            ev["coverage"].setdefault("known_findings", {})[k["id"]] = seen[k["id"]]
    if not a.only and REPO == "/repo":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for s, d in subs.items():
        print("%s/%s: %d cases, %d distinct non-trivial %s" % (prop, s, d["evaluations"], d["distinct_nontrivial"],
                                                              json.dumps(d["classes"])))
    print("%s %s seed=%d: %d cases, %.1f s" % (prop, a.tier, a.seed, evaluations, ev["wall_s"]))
    if fails:
        best = min(fails, key=lambda f: len(json.dumps(f["case"])))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, a.tier, a.seed))
        with open(path, "w") as f:
            json.dump(dict(best, property=prop, seed=a.seed), f, indent=1)
        print("%s: %s" % (best["sub"], best["message"]))
        print("case: %s" % json.dumps(best["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:1]:
            print(e, file=sys.stderr)
        print("%s: error of the check" % prop, file=sys.stderr)
        return 2
    return 0
