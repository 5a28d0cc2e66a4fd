"""Property-based testing harness (thin layer over Hypothesis).

A check module registers *sub-checks* with ``@sub(name, quick=N, thorough=M)``.  A sub-check is a function of one
argument ``d``; every random choice goes through ``d(strategy)`` so that Hypothesis owns it (and can shrink it) and so
that the exact list of drawn values can be written to a replay file and fed back without Hypothesis
(``run.sh C01 --replay FILE``).

Verdicts
  * a ``Violation`` (raised by the oracle), or any exception that the code under test raises on an input that the
    property says it must handle -> VIOLATION, exit 1
  * a failure that is clearly the harness' own (NameError/ImportError in /verif, Hypothesis health problems) -> exit 2
  * nothing found -> exit 0
"""
import base64
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st
from hypothesis.errors import HypothesisException, Flaky, StopTest
import hypothesis.errors as herr
import hypothesis.internal.conjecture.engine as _eng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RAINBOW_REPO", "/repo")

_eng.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS", "25"))

# Hypothesis follows every fresh case by about five copies of it in which one drawn value is replaced by another. A few of
# these are useful (equal values), but as the rule they leave only every sixth case fresh: mutate one case in sixteen.
_mutate = _eng.ConjectureRunner.generate_mutations_from
_eng.ConjectureRunner.generate_mutations_from = lambda self, data: _mutate(self, data) if self.random.random() < 1 / 16 else None

CASE_SECONDS = int(os.environ.get("VERIF_CASE_SECONDS", "400"))   # no case takes a quarter of this; beyond it the code hangs


class Violation(Exception):
    """The oracle found the property broken."""


class HarnessError(Exception):
    """The machinery itself is at fault."""


# --------------------------------------------------------------------------------------------------------------
# registry
# --------------------------------------------------------------------------------------------------------------
SUBS = []


class Sub:
    def __init__(self, fn, name, quick, thorough, rule, weight):
        self.fn, self.name, self.quick, self.thorough = fn, name, quick, thorough
        self.rule, self.weight = rule, weight


def sub(name=None, quick=200, thorough=None, rule="", weight=1):
    """Register a sub-check; quick/thorough are numbers of generated cases for the two tiers."""
    def deco(fn):
        SUBS.append(Sub(fn, name or fn.__name__, quick, thorough if thorough is not None else quick * 20,
                        rule or (fn.__doc__ or "").strip().split("\n")[0], weight))
        return fn
    return deco


# --------------------------------------------------------------------------------------------------------------
# the draw object
# --------------------------------------------------------------------------------------------------------------
def _clean(v):
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, list):
        return [_clean(x) for x in v]
    return v


class Draw:
    def __init__(self, data=None, replay=None):
        self._data = data
        self._replay = list(replay) if replay is not None else None
        self.record = []
        self.labels = []
        self.nt = None

    def __call__(self, strategy, label=None):
        if self._replay is not None:
            if not self._replay:
                raise HarnessError("replay file is too short for this sub-check")
            v = self._replay.pop(0)
        else:
            v = self._data.draw(strategy)
        self.record.append(_clean(v))
        return v

    # ---- small helpers on top of draw
    def pick(self, seq):
        seq = list(seq)
        return seq[self(st.integers(0, len(seq) - 1))]

    def int(self, lo, hi):
        return self(st.integers(lo, hi))

    def size(self, lo, hi, big, rare=6):
        """A size from lo to hi, and one time in `rare` one from hi to big (most code has no size limits worth the name)."""
        n = self.int(lo, hi)
        if self.int(0, rare - 1) == rare - 1:
            self.label("large")
            n = big - self.int(0, big - hi)
        return n

    def bool(self):
        return self(st.booleans())

    # ---- classification
    def label(self, name):
        self.labels.append(str(name))

    def nontrivial(self, flag=True):
        """Declare whether this case counts as non-trivial (default: it does)."""
        self.nt = bool(flag)


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg="", /, **kw):
    if not bool(cond):
        extra = "".join(f"\n    {k} = {_short(v)}" for k, v in kw.items())
        raise Violation((msg() if callable(msg) else str(msg)) + extra)


def _short(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=17, threshold=60).replace("\n", " ")
    s = repr(v)
    return s if len(s) < 600 else s[:600] + "..."


def close(a, b, /, atol=1e-9, rtol=1e-9, msg="values differ", **kw):
    """Assert that a and b agree: |a-b| <= atol + rtol*max(|a|,|b|) elementwise, equal shapes, all finite."""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shapes {a.shape} and {b.shape} differ")
    if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
        raise Violation(f"{msg}: non-finite value: {_short(a)} vs {_short(b)}" +
                        "".join(f"\n    {k} = {_short(v)}" for k, v in kw.items()))
    if a.size == 0:
        return
    err = np.abs(a - b)
    lim = atol + rtol * np.maximum(np.abs(a), np.abs(b))
    if np.any(err > lim):
        extra = "".join(f"\n    {k} = {_short(v)}" for k, v in kw.items())
        raise Violation(f"{msg}: got {_short(a)}, expected {_short(b)} (max error {err.max():.3g}){extra}")


# --------------------------------------------------------------------------------------------------------------
# common strategies
# --------------------------------------------------------------------------------------------------------------
def _num(lo, hi):
    """Floats in [lo,hi] on a grid that shrinks well, mixed with arbitrary floats and magnitudes."""
    nice = st.integers(int(np.ceil(lo * 4)), int(np.floor(hi * 4))).map(lambda k: k / 4.0) \
        if np.floor(hi * 4) >= np.ceil(lo * 4) else st.floats(lo, hi)
    return st.one_of(nice, st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False))


def num(lo=-10.0, hi=10.0):
    return _num(lo, hi)


def pos(lo=0.1, hi=10.0):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def vec(n=3, lo=-10.0, hi=10.0):
    return st.lists(num(lo, hi), min_size=n, max_size=n).map(lambda x: np.array(x, dtype=np.float64))


def _unitize(x):
    # components whose squares underflow are dropped: no norm of such a part has any correct digits
    x = np.where(np.abs(x) < 1e-120, 0.0, x)
    return x / np.linalg.norm(x)


def unit(n=3):
    """Unit vectors, including axis-aligned and nearly axis-aligned ones."""
    gen = st.lists(st.floats(-1.0, 1.0, allow_nan=False), min_size=n, max_size=n).map(np.array).filter(
        lambda x: np.linalg.norm(x) > 1e-3).map(_unitize)
    axes = st.tuples(st.integers(0, n - 1), st.sampled_from([1.0, -1.0])).map(
        lambda t: np.array([t[1] if i == t[0] else 0.0 for i in range(n)]))
    small = st.tuples(axes, gen, st.sampled_from([1e-2, 1e-5, 1e-9])).map(lambda t: _unitize(t[0] + t[2] * t[1]))
    ints = st.lists(st.integers(-2, 2), min_size=n, max_size=n).filter(lambda x: any(x)).map(
        lambda x: _unitize(np.array(x, dtype=np.float64)))
    return st.one_of(gen, gen, axes, small, ints)


def length(lo=-6.0, hi=6.0):
    """Lengths of vectors that need not be unit: one, barely different from one, or of any magnitude."""
    near = st.tuples(st.floats(1.0, 9.0), st.sampled_from([1.0, -1.0])).map(lambda t: 1.0 + t[1] * 10.0 ** -t[0])
    return st.one_of(st.just(1.0), near, near, st.floats(lo, hi).map(lambda x: 10.0 ** x), st.floats(0.2, 5.0))


def quat():
    return unit(4)


def quat_generic():
    """Unit quaternions that are not axis aligned (any rotation)."""
    return st.lists(st.floats(-1.0, 1.0, allow_nan=False), min_size=4, max_size=4).map(np.array).filter(
        lambda x: np.linalg.norm(x) > 1e-2).map(_unitize)


def angle():
    special = [0.0, 1e-10, 1e-6, 1e-3, np.pi / 4, np.pi / 2, np.pi - 1e-3, np.pi - 1e-6, np.pi, 1.5 * np.pi,
               2 * np.pi]
    return st.one_of(st.floats(-2 * np.pi, 2 * np.pi, allow_nan=False),
                     st.tuples(st.sampled_from(special), st.sampled_from([1.0, -1.0])).map(lambda t: t[0] * t[1]))


# ---- independent reference rotation algebra (oracle side; does not use the code under test)
def ref_matrix(q):
    s, x, y, z = [float(v) for v in q]
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - s * z), 2 * (x * z + s * y)],
        [2 * (x * y + s * z), 1 - 2 * (x * x + z * z), 2 * (y * z - s * x)],
        [2 * (x * z - s * y), 2 * (y * z + s * x), 1 - 2 * (x * x + y * y)]])


def ref_rodrigues(theta, u):
    u = np.asarray(u, dtype=float)
    u = u / np.linalg.norm(u)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + np.sin(theta) * K + (1 - np.cos(theta)) * (K @ K)


def ref_qmul(a, b):
    s, v = a[0], np.asarray(a[1:])
    t, w = b[0], np.asarray(b[1:])
    return np.concatenate(([s * t - v @ w], s * w + t * v + np.cross(v, w)))


# --------------------------------------------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == prop:
                        out.append(e)
    return out


# --------------------------------------------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------------------------------------------
def _is_harness_fault(exc):
    if isinstance(exc, Violation):
        return False
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt)):
        return True
    if isinstance(exc, HypothesisException) and not isinstance(exc, Flaky):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    in_repo = any(f.filename.startswith(REPO + "/") for f in tb)
    if in_repo:
        return False
    last = tb[-1].filename if tb else ""
    if last.startswith(VERIF + "/checks") or last.startswith(VERIF + "/lib"):
        if isinstance(exc, (NameError, ImportError, SyntaxError)):
            return True
        if isinstance(exc, AttributeError) and str(exc).startswith("module "):
            return True
    return False


def _enc(v):
    return base64.b64encode(pickle.dumps(v)).decode()


def _dec(s):
    return pickle.loads(base64.b64decode(s))


def _sample(rec):
    s = "; ".join(_short(x) for x in rec)
    return s if len(s) <= 500 else s[:500] + " ..."


class BudgetOver(BaseException):
    pass


class Hang(BaseException):
    """A single case did not come to an end."""


def _hang(*_):
    raise Hang(f"the code did not come to an end within {CASE_SECONDS} s on this input")


def run_sub(s, n, seed, budget_s):
    """Run one sub-check; returns a plain dict."""
    t0 = time.time()
    warnings.simplefilter("ignore")
    stt = dict(evaluations=0, skipped=0, labels={}, samples=[], failure=None, harness=None)
    distinct = set()
    state = {"fail": None, "failures": 0}
    target = {"found": False}

    def body(data):
        if not target["found"] and time.time() - t0 > budget_s:
            state["over"] = True
            raise BudgetOver()                                     # not an Exception: ends the generation at once
        d = Draw(data)
        np.random.seed(0)
        if isinstance(state["fail"] and state["fail"][1], Hang):
            raise BudgetOver()
        signal.alarm(CASE_SECONDS)
        try:
            with np.errstate(all="ignore"):
                s.fn(d)
        except (StopTest, herr.UnsatisfiedAssumption):
            raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            target["found"] = True
            state["failures"] += 1
            state["fail"] = (list(d.record), e, traceback.format_exc())
            raise
        finally:
            signal.alarm(0)
        stt["evaluations"] += 1
        for l in set(d.labels):
            stt["labels"][l] = stt["labels"].get(l, 0) + 1
        if d.nt is not False:
            h = hashlib.blake2b(pickle.dumps(d.record), digest_size=10).digest()
            if h not in distinct:
                distinct.add(h)
                if len(stt["samples"]) < 2 and len(distinct) in (3, 40):
                    stt["samples"].append(f"{s.name}: {_sample(d.record)}")

    test = hypothesis.given(st.data())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck))(test)
    signal.signal(signal.SIGALRM, _hang)
    try:
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except BaseException as e:
        if state.get("over") and state["fail"] is None:              # whatever hypothesis made of it
            stt["skipped"] = n - stt["evaluations"]
        elif state["fail"] is not None:
            rec, exc, tb = state["fail"]
            if _is_harness_fault(exc):
                stt["harness"] = tb
            else:
                stt["failure"] = dict(record=[_enc(x) for x in rec], readable=[_short(x) for x in rec],
                                      error=f"{type(exc).__name__}: {exc}", traceback=tb)
        else:
            stt["harness"] = traceback.format_exc()
    stt["distinct_nontrivial"] = len(distinct)
    stt["wall_s"] = time.time() - t0
    stt["name"] = s.name
    stt["rule"] = s.rule
    if stt["evaluations"] == 0 and not stt["failure"] and not stt["harness"]:
        stt["harness"] = f"sub-check {s.name} evaluated nothing"
    return stt


def _worker(args):
    i, n, seed, budget = args
    # no output from the code under test may be mistaken for ours
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        return i, run_sub(SUBS[i], n, seed, budget)
    except BaseException:
        return i, dict(name=SUBS[i].name, harness=traceback.format_exc(), failure=None, evaluations=0,
                       distinct_nontrivial=0, labels={}, samples=[], skipped=0, wall_s=0.0, rule="")


def main(prop, assumptions=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    argv = sys.argv[1:]
    if "--thorough" in argv:
        tier = "thorough"
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = 150.0 if tier == "quick" else 760.0
    jobs = []
    for i, s in enumerate(SUBS):
        if only and only not in s.name:
            continue
        n = s.quick if tier == "quick" else s.thorough
        if n == 0 and not only:                       # too slow for this tier
            continue
        jobs.append((i, max(1, int(n * scale)), seed, budget))
    jobs.sort(key=lambda j: -SUBS[j[0]].weight)
    nproc = min(len(jobs), int(os.environ.get("VERIF_PROCS", "8")))
    results = {}
    if nproc <= 1:
        for j in jobs:
            i = j[0]
            results[i] = run_sub(SUBS[i], j[1], j[2], j[3])
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            for i, r in pool.imap_unordered(_worker, jobs, chunksize=1):
                results[i] = r
                if r["failure"] and tier == "quick":
                    pool.terminate()
                    break
    order = sorted(results)
    failures = [(SUBS[i], results[i]) for i in order if results[i]["failure"]]
    harness = [(SUBS[i], results[i]) for i in order if results[i]["harness"]]
    kf = [e for e in known_findings(prop) if e.get("status") == "known"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results.values()),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results.values()),
            rule="Cases are drawn by Hypothesis from the generators of each sub-check; a case is non-trivial when the "
                 "sub-check does not mark it trivial, and distinct by the hash of all drawn values. Sub-checks: "
                 + " | ".join(f"{results[i]['name']}: {results[i]['rule']}" for i in order),
            samples=[x for i in order for x in results[i]["samples"]][:40],
            per_subcheck={results[i]["name"]: dict(
                evaluations=results[i]["evaluations"], distinct_nontrivial=results[i]["distinct_nontrivial"],
                labels=results[i]["labels"], over_time_budget=results[i]["skipped"],
                wall_s=round(results[i]["wall_s"], 2)) for i in order},
        ),
        assumptions=list(assumptions),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, f"{prop}.json"))
    if "-v" in argv:
        for i in order:
            r = results[i]
            print(f"  {r['name']:<40} eval={r['evaluations']:<6} nt={r['distinct_nontrivial']:<6} "
                  f"skip={r['skipped']:<5} {r['wall_s']:.1f}s {r['labels']}")
    for e in kf:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if failures:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for s, r in failures:
            path = os.path.join(rdir, f"{prop}-{s.name}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, sub=s.name, seed=seed, tier=tier, **r["failure"]), f, indent=1)
            print(f"--- {s.name}: {r['failure']['error'][:1500]}")
            for x in r["failure"]["readable"][:20]:
                print(f"      draw {x}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if harness:
        for s, r in harness:
            sys.stderr.write(f"HARNESS ERROR in {prop}/{s.name}:\n{r['harness']}\n")
        return 2
    c = ev["coverage"]
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={c['evaluations']} "
          f"distinct_nontrivial={c['distinct_nontrivial']} wall={ev['wall_s']}s")
    return 0


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    s = next(x for x in SUBS if x.name == r["sub"])
    d = Draw(replay=[_dec(x) for x in r["record"]])
    np.random.seed(0)
    signal.signal(signal.SIGALRM, _hang)
    signal.alarm(CASE_SECONDS)
    try:
        with np.errstate(all="ignore"):
            s.fn(d)
    except (Exception, Hang) as e:
        if _is_harness_fault(e):
            raise
        traceback.print_exc()
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} replay={path} no longer fails")
    return 0
