"""A small property-based testing framework on top of hypothesis.

A check module defines ``PROPERTY`` (its id), ``RULE`` (what makes a case non-trivial), ``ASSUMPTIONS``, and a list
``SUBS`` of ``Sub`` objects.  Every ``Sub`` has a hypothesis strategy that generates plain JSON values ("cases") and an
oracle ``test(case, ctx)`` that raises ``Violation`` when the library's behaviour on that case breaks the property.
Cases are JSON, so a shrunk failure is saved as a replay file that is re-run without hypothesis.
"""

import contextlib
import dataclasses
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib
from typing import Any, Callable

import hypothesis
import numpy as np
from hypothesis import HealthCheck, Phase, Verbosity, settings
from hypothesis import strategies as st

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT_S = 240  # a case takes milliseconds; this only turns an endless loop into an answer
SHRINK_BUDGET_S = 60
THOROUGH_BUDGET_S = float(os.environ.get("VERIF_THOROUGH_S", "420"))
QUICK_CAP_S = 600


class Violation(Exception):
    """The property does not hold for the case at hand."""


class HarnessError(BaseException):
    """The machinery itself is broken: never a verdict about the code."""


class Hang(Exception):
    pass


class _StopShrink(KeyboardInterrupt):
    pass


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Any
    test: Callable
    quick: int = 200
    weight: float = 1.0  # share of the thorough budget
    examples: tuple = ()  # hand-picked cases that are always tried first


class Ctx:
    """Collects, per case, whether it was non-trivial and which classes it belongs to."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


# ----------------------------------------------------------------------------------------------- oracle helpers
def violate(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def same(actual, expected, what="value", rtol=1e-9, atol=1e-12):
    """Equal up to rounding, with NaN equal to NaN, and the same shape."""
    a = np.asarray(actual, dtype=float)
    b = np.asarray(expected, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    with np.errstate(all="ignore"):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = tuple(int(k) for k in np.argwhere(~np.atleast_1d(ok))[0])
        av, bv = np.atleast_1d(a)[i], np.atleast_1d(b)[i]
        raise Violation(f"{what}: at {i} got {av!r}, expected {bv!r}")


def identical(actual, expected, what="value"):
    """Bitwise the same numbers (NaN equal to NaN), type and shape."""
    a, b = np.asarray(actual), np.asarray(expected)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    try:
        ok = np.array_equal(a, b, equal_nan=True)
    except TypeError:
        ok = np.array_equal(a, b)
    if not ok:
        raise Violation(f"{what}: {short(a)} differs from {short(b)}")


def rejects(fn, errors, what):
    """fn() must raise one of ``errors``."""
    try:
        r = fn()
    except errors:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {e}, expected {errors}")
    raise Violation(f"{what}: accepted, returned {short(r, 120)}")


# ----------------------------------------------------------------------------------------------- strategies
def seeds():
    return st.integers(0, 2**32 - 1)


def rng(seed):
    return np.random.default_rng(seed)


# ----------------------------------------------------------------------------------------------- running one case
def _alarm(_sig, _frm):
    raise Hang(f"no answer within {CASE_TIMEOUT_S} s")


@contextlib.contextmanager
def _quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout = old


def evaluate(sub, case, ctx):
    """Run the oracle on a case. Returns None, or the description of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with _quiet():
            sub.test(case, ctx)
        return None
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except MemoryError as e:
        raise HarnessError(str(e))
    except Violation as e:
        return str(e)
    except Exception as e:
        # the oracles only use the documented API on valid input: an exception there is a broken promise as well
        tb = traceback.format_exc(limit=-6)
        return f"unexpected {type(e).__name__}: {e}\n{tb}"
    finally:
        signal.alarm(0)


def _dump(case):
    return json.dumps(case, sort_keys=True)


class Runner:
    def __init__(self, module, tier, seed):
        self.module, self.tier, self.seed = module, tier, seed
        self.evaluations = 0
        self.nontrivial = set()
        self.by_sub = {}
        self.labels = {}
        self.samples = []
        self.rounds = 0
        self.failure = None  # (sub, case, message)
        self.notes = []

    def one(self, sub, case):
        ctx = Ctx()
        msg = evaluate(sub, case, ctx)
        self.evaluations += 1
        stats = self.by_sub.setdefault(sub.name, {"cases": 0, "nontrivial": 0, "samples": 0})
        stats["cases"] += 1
        for name in ctx.labels:
            key = f"{sub.name}:{name}"
            self.labels[key] = self.labels.get(key, 0) + 1
        if ctx.is_nontrivial:
            key = hashlib.blake2b((sub.name + _dump(case)).encode(), digest_size=12).digest()
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                stats["nontrivial"] += 1
                if stats["samples"] < 2 and stats["nontrivial"] in (3, 17):
                    stats["samples"] += 1
                    text = _dump(case)
                    self.samples.append(
                        {"sub": sub.name, "case": json.loads(text) if len(text) < 1500 else text[:1500] + "..."}
                    )
        return msg

    def search(self, sub, n, seed):
        """Generate n cases; on a failure, shrink it. Returns the smallest failure found, or None."""
        best = None
        t_fail = None
        for case in sub.examples:
            case = json.loads(_dump(case))
            msg = self.one(sub, case)
            if msg is not None:
                return case, msg

        def body(case):
            nonlocal best, t_fail
            case = json.loads(_dump(case))
            if t_fail is not None and time.monotonic() - t_fail > SHRINK_BUDGET_S:
                raise _StopShrink()
            msg = self.one(sub, case)
            if msg is not None:
                size = len(_dump(case))
                if t_fail is None:
                    t_fail = time.monotonic()
                if best is None or size < best[2]:
                    best = (case, msg, size)
                raise Violation("fails")

        test = hypothesis.given(sub.strategy)(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=Verbosity.quiet,
        )(test)
        test = hypothesis.seed(seed)(test)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                test()
        except HarnessError:
            raise
        except BaseException as e:
            if best is None:
                if isinstance(e, KeyboardInterrupt):
                    raise
                raise HarnessError(f"{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}")
        return None if best is None else best[:2]

    def sub_seed(self, sub, round_):
        return (zlib.crc32(f"{self.module.PROPERTY}/{sub.name}".encode()) + 1000003 * self.seed + 7919 * round_) % 2**32

    def run(self):
        t0 = time.monotonic()
        subs = self.module.SUBS
        if self.tier == "quick":
            for i, sub in enumerate(subs):
                if time.monotonic() - t0 > QUICK_CAP_S:
                    self.notes.append(f"inconclusive: time cap reached before {sub.name}")
                    break
                found = self.search(sub, sub.quick, self.sub_seed(sub, 0))
                if found:
                    self.failure = (sub, *found)
                    break
            self.rounds = 1
        else:
            while self.failure is None and (self.rounds == 0 or time.monotonic() - t0 < THOROUGH_BUDGET_S):
                for sub in subs:
                    found = self.search(sub, max(1, int(2 * sub.quick * sub.weight)), self.sub_seed(sub, self.rounds + 1))
                    if found:
                        self.failure = (sub, *found)
                        break
                    if self.rounds > 0 and time.monotonic() - t0 > THOROUGH_BUDGET_S:
                        break
                self.rounds += 1
        self.wall = time.monotonic() - t0


def known_findings(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == "finding:" and parts[1] == f"property={prop}":
                out[parts[2]] = parts[3]
    return out


def load(prop):
    for name in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if name.lower().startswith(prop.lower() + "_") and name.endswith(".py"):
            return importlib.import_module("checks." + name[:-3])
    raise HarnessError(f"no check for {prop}")


def run(prop, tier, replay=None):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    np.random.seed(seed % 2**32)
    module = load(prop)
    if replay:
        data = json.load(open(replay))
        sub = next(s for s in module.SUBS if s.name == data["sub"])
        msg = evaluate(sub, data["case"], Ctx())
        if msg is None:
            print(f"replay: property={prop} sub={sub.name} holds")
            return 0
        print(msg)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1

    runner = Runner(module, tier, seed)
    runner.run()

    known = known_findings(prop)
    for key, probe in getattr(module, "FINDINGS", {}).items():
        if key in known:
            with _quiet():
                still = probe()
            if still:
                print(f"KNOWN-FINDING: property={prop} {key} {known[key]}")

    code, violations = 0, 0
    if runner.failure:
        sub, case, msg = runner.failure
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{prop}-{sub.name}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": sub.name, "seed": seed, "case": case, "message": msg}, f, indent=1)
        print(f"{prop} {sub.name}: {msg}")
        print(f"case: {short(_dump(case), 2000)}")
        print(f"VIOLATION property={prop} replay={path}")
        code, violations = 1, 1
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runner.evaluations,
            "distinct_nontrivial": len(runner.nontrivial),
            "rule": module.RULE,
            "samples": runner.samples[:12],
            "per_oracle": {k: {"cases": v["cases"], "nontrivial": v["nontrivial"]} for k, v in runner.by_sub.items()},
            "classes": dict(sorted(runner.labels.items())),
            "rounds": runner.rounds,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + runner.notes,
        "wall_s": round(runner.wall, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {runner.evaluations} cases, {len(runner.nontrivial)} distinct non-trivial, "
        f"{runner.wall:.1f} s, {violations} violation(s)"
    )
    return code
