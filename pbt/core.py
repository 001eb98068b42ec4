"""Sub-properties, violations, observers, comparison helpers, and the Hypothesis driver."""
import hashlib
import json
import math
import os
import signal
import time
import traceback
import warnings

import numpy as np

from pbt import boot


class Violation(Exception):
    """The library broke the property on this case."""


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, not an evaluation)."""


class Slow(BaseException):
    """One case took longer than its time limit (no Exception: the library must not swallow it)."""


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True


class Sub:
    """One generated check: a strategy of JSON cases and an oracle."""

    def __init__(self, name, strategy, check, quick, thorough, rule, shards=1):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


# ----------------------------------------------------------------------------- observers

def fail(msg, **kw):
    extra = "".join(f"\n    {k} = {_show(v)}" for k, v in kw.items())
    raise Violation(msg + extra)


def _show(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=17, separator=", ", max_line_width=160)
    return repr(v)


def vec(x, n, what, finite=True):
    """x as float64 vector of length n; a violation when it is not one."""
    try:
        a = np.array(x, dtype=np.float64)
    except Exception as e:
        fail(f"{what} is not a numeric array: {type(x).__name__} {x!r} ({e})")
    if a.shape != (n, ):
        fail(f"{what} has shape {a.shape}, expected ({n},)", value=a)
    if finite and not np.all(np.isfinite(a)):
        fail(f"{what} is not finite", value=a)
    return a


def mat(x, shape, what):
    try:
        a = np.array(x, dtype=np.float64)
    except Exception as e:
        fail(f"{what} is not a numeric array: {type(x).__name__} ({e})")
    if a.shape != tuple(shape):
        fail(f"{what} has shape {a.shape}, expected {tuple(shape)}")
    if not np.all(np.isfinite(a)):
        fail(f"{what} is not finite", value=a)
    return a


def num(x, what, finite=True):
    try:
        v = float(x)
    except Exception as e:
        fail(f"{what} is not a number: {type(x).__name__} {x!r} ({e})")
    if finite and not math.isfinite(v):
        fail(f"{what} is not finite: {v}")
    return v


def near(a, b, tol):
    """NaN-safe |a-b| <= tol (elementwise, all)."""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    return bool(np.all((np.abs(a - b) <= tol) | (a == b)))


def same(a, b):
    """Bitwise-equal values (NaN equal to NaN), same shape."""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def expect_raises(kinds, fn, what):
    """fn() must raise one of kinds."""
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        fail(f"{what}: raised {type(e).__name__} ({e}) instead of {kinds}")
    fail(f"{what}: no error raised")


# ----------------------------------------------------------------------------- running one case

def _from_repo(exc):
    """Did this exception come out of the library (not out of the harness)?"""
    tb = exc.__traceback__
    root = os.path.join(os.path.abspath(boot.REPO), "safe_autonomy_dynamics") + os.sep
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        mod = getattr(obj, "__module__", None) or getattr(type(obj), "__module__", "")
        name = getattr(obj, "__name__", "") or ""
        if str(mod).startswith("safe_autonomy_dynamics") or str(name).startswith("safe_autonomy_dynamics"):
            return True
    if isinstance(exc, TypeError) and "safe_autonomy_dynamics" in str(exc):
        return True
    # e.g. abstract class instantiation or wrong signature of a library callable
    if isinstance(exc, TypeError) and ("abstract class" in str(exc) or "__init__()" in str(exc)):
        return True
    return False


def run_case(sub, case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                sub.check(case, rec)
            except (Violation, Skip):
                raise
            except Exception as e:
                if _from_repo(e):
                    tail = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
                    raise Violation(f"unexpected {type(e).__name__} from the library: {e}\n{tail}") from e
                raise


def jsonable(case):
    return json.loads(json.dumps(case))


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def derived_seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:6], "big")


def run_sub(prop, sub, shard, seed, tier, budget, corpus=()):
    """Runs one shard of one sub-property; returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25 if tier == "quick" else 90

    total = sub.quick if tier == "quick" else sub.thorough
    n = max(1, total // sub.shards)
    res = {"sub": sub.name, "shard": shard, "evaluations": 0, "skipped": 0, "hashes": [], "labels": {}, "samples": [], "truncated": False,
           "rule": sub.rule, "violation": None, "seed": seed, "requested": n, "slow": 0}
    seen = set()
    start = time.monotonic()
    fails = []
    state = {"searching": True, "since": 0.0}
    limit = 20 if tier == "quick" else 120

    def ring(signum, frame):
        raise Slow()

    signal.signal(signal.SIGALRM, ring)

    def one(case, record=True):
        case = jsonable(case)
        rec = Rec()
        try:
            signal.setitimer(signal.ITIMER_REAL, limit if state["searching"] else 5)
            try:
                run_case(sub, case, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Slow:
            # neither a violation nor an evaluation: counted and reported, and after a few the search of this shard stops
            res["slow"] += 1
            return
        except Skip:
            if record:
                res["skipped"] += 1
            return
        except Violation as v:
            if record and state["searching"]:
                res["evaluations"] += 1
            fails.append((case, str(v)))
            if state["searching"]:
                state["since"] = time.monotonic()
            state["searching"] = False
            raise
        if record and state["searching"]:
            res["evaluations"] += 1
            for l in rec.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if rec.nontrivial:
                h = case_hash(case)
                if h not in seen:
                    seen.add(h)
                    k = len(seen)
                    if len(res["samples"]) < 2 or (k & (k - 1)) == 0:
                        res["samples"].append(case)

    # seconds-long replay tier: saved inputs first
    if shard == 0:
        for c in corpus:
            try:
                one(c)
            except Violation:
                res["violation"] = {"case": fails[-1][0], "message": fails[-1][1], "shrunk": False}
                res["hashes"] = sorted(seen)
                return res

    kwargs = {}

    @hypothesis.seed(derived_seed(seed, prop, sub.name, shard))
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, ) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False, **kwargs)
    @given(sub.strategy())
    def test(case):
        if (time.monotonic() - start > budget or res["slow"] > 2) and state["searching"]:
            res["truncated"] = True
            return
        if not state["searching"] and time.monotonic() - state["since"] > 90 and case_hash(jsonable(case)) != case_hash(fails[-1][0]):
            return  # enough shrinking
        one(case)

    try:
        test()
    except Violation:
        pass
    except Exception as e:
        if not fails:
            raise
        if not (isinstance(e, hypothesis.errors.HypothesisException) or "Flaky" in type(e).__name__ or isinstance(e, BaseExceptionGroup)):
            raise
    if fails:
        case, msg = fails[-1]
        shrunk = len(fails) > 1
        confirmed = False
        for cand, m in (fails[-1], fails[0]):
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                run_case(sub, cand, Rec())
            except Violation as v:
                case, msg, confirmed = cand, str(v), True
                break
            except (Skip, Slow):
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if not confirmed:
            msg += "\n    (observed during the search; did not repeat in isolation: the library carries state between cases)"
        res["violation"] = {"case": case, "message": msg, "shrunk": shrunk, "confirmed": confirmed, "executions_failing": len(fails)}
    res["hashes"] = sorted(seen)
    res["samples"] = res["samples"][:2] + res["samples"][-2:] if len(res["samples"]) > 4 else res["samples"]
    return res
