"""C29: every call is a pure function of its arguments, under every history, schedule and environment."""

import contextlib
import copy
import gc
import io
import json
import logging
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import catalog as cat
from pbt import bootstrap
from pbt.core import HarnessError, Sub, Violation, ensure, rng, seeds
from pbt.forks import in_child
from pbt.gen import snapshot

PROPERTY = "C29"
RULE = (
    "histories with at least three calls of which two are of the same function, schedules with at least two threads, "
    "in-place changes of data that change the result"
)
ASSUMPTIONS = [
    "stochastic functions get a seed",
    "results are compared bit by bit with single-threaded linear algebra, and up to rounding for other memory layouts",
    "threads share objects only for reading (simulating, evaluating), not while an object is fitted",
    "EDGE distributes its windows over in-process workers",
]

LIBRARY_CALLS = st.one_of(st.sampled_from(cat.CHEAP), st.sampled_from(cat.CHEAP), st.sampled_from(cat.NAMES))


def call_spec(names=LIBRARY_CALLS):
    return st.fixed_dictionaries(
        {"name": names, "seed": st.integers(0, 9), "n": st.sampled_from([14, 24, 24, 40]), "container": st.integers(0, 2)}
    )


ENVIRONMENT = ("gc", "np_seed", "py_seed", "np_draw", "print_options", "debug_log", "chdir", "pd_option", "errstate", "warn_always")


def disturb(kind, where):
    """Things other code in the process may do."""
    if kind == "gc":
        gc.collect()
    elif kind == "np_seed":
        np.random.seed(5)
    elif kind == "py_seed":
        random.seed(5)
    elif kind == "np_draw":
        np.random.uniform(size=7)
    elif kind == "print_options":
        np.set_printoptions(precision=2)
    elif kind == "debug_log":
        logging.getLogger("quantfinlib").setLevel(logging.DEBUG)
    elif kind == "chdir":
        os.chdir(where)
    elif kind == "pd_option":
        pd.set_option("display.precision", 2)
    elif kind == "errstate":
        np.seterr(all="ignore")
    elif kind == "warn_always":
        warnings.simplefilter("always")


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def key(spec):
    return json.dumps(spec, sort_keys=True)


def pristine(specs):
    """Frozen results, each from a process that has done nothing else."""

    def one(spec):
        with silent():
            return cat.freeze(cat.run(spec))

    out = {}
    for s in specs:
        if key(s) not in out:
            out[key(s)] = in_child(one, s)
            if out[key(s)][0] == "raised":
                raise Violation(f"{s['name']}: raised {out[key(s)][1]}: {out[key(s)][2]}")
    return out


def expect(got, want, what):
    if got != want:
        raise Violation(f"{what}: another result than in a fresh process ({explain(got, want)})")


def explain(a, b):
    if a[0] == "raised":
        return f"raised {a[1]}: {a[2]}"
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return explain(x, y) if isinstance(x, tuple) and isinstance(y, tuple) and x and y else f"{str(x)[:60]} against {str(y)[:60]}"
    return f"{str(a)[:80]} against {str(b)[:80]}"


# ------------------------------------------------------------------------------------------------ histories
def test_history(case, ctx):
    ops = case["ops"]
    specs = [o for o in ops if "name" in o]
    want = pristine(specs)

    def history():
        got = []
        with tempfile.TemporaryDirectory() as d, silent():
            for o in ops:
                if "name" in o:
                    got.append(cat.freeze(cat.run(o)))
                else:
                    disturb(o["do"], d)
            for i in rng(case["order"]).permutation(len(specs)):
                got.append((int(i), cat.freeze(cat.run(specs[i]))))
            os.chdir("/")
        return got

    got = in_child(history)
    for s, g in zip(specs, got):
        expect(g, want[key(s)], f"{s['name']} in a history of calls")
    for i, g in got[len(specs):]:
        expect(g, want[key(specs[i])], f"{specs[i]['name']} when the calls are repeated in another order")
    names = [s["name"] for s in specs]
    ctx.nontrivial(len(names) >= 3 and len(set(names)) < len(names))
    ctx.label(*{cat.BY_NAME[n].area for n in names})


@st.composite
def histories(draw):
    """Histories that come back to few functions, with other data of the same size."""
    names = draw(st.lists(LIBRARY_CALLS, min_size=1, max_size=3))
    n = draw(st.sampled_from([14, 24, 40]))
    container = draw(st.integers(0, 2))
    near = st.fixed_dictionaries({"name": st.sampled_from(names), "seed": st.integers(0, 4), "n": st.just(n), "container": st.just(container)})
    op = st.one_of(near, near, near, call_spec(st.sampled_from(names)), st.fixed_dictionaries({"do": st.sampled_from(ENVIRONMENT)}))
    ops = draw(st.lists(op, min_size=2, max_size=8))
    return {"ops": ops, "order": draw(seeds())}


# ------------------------------------------------------------------------------------------------ data changed in place
def overwrite(target, source):
    """Put the source's numbers into the target's memory; False if there is none to change."""
    done = False
    for t, s in zip(target, source):
        if isinstance(t, np.ndarray) and isinstance(s, np.ndarray) and t.shape == s.shape and t.dtype == s.dtype:
            t[...] = s
            done = True
        elif isinstance(t, pd.Series) and isinstance(s, pd.Series) and t.shape == s.shape and t.dtype == s.dtype:
            t.iloc[:] = s.to_numpy()
            done = True
        elif isinstance(t, pd.DataFrame) and isinstance(s, pd.DataFrame) and t.shape == s.shape:
            t.iloc[:, :] = s.to_numpy()
            done = True
    return done


def scribble(x):
    """Overwrite every number of a result."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fi":
        x[...] = 77
    elif isinstance(x, pd.Series) and x.dtype.kind == "f":
        x.iloc[:] = 77.0
    elif isinstance(x, pd.DataFrame):
        x.iloc[:, :] = 77.0
    elif isinstance(x, (list, tuple)):
        for e in x:
            scribble(e)
    elif isinstance(x, dict):
        for e in x.values():
            scribble(e)


def test_in_place(case, ctx):
    a = case["call"]
    call = cat.BY_NAME[a["name"]]

    def work():
        with silent():
            first, second = cat.inputs_of(a), cat.inputs_of(dict(a, seed=case["other"]))
            mixed = copy.deepcopy(first)
            changed = overwrite(mixed, second)
            want1 = cat.freeze(cat.run(a, copy.deepcopy(first)))
            want2 = cat.freeze(cat.run(a, copy.deepcopy(mixed)))
            data = copy.deepcopy(first)
            r1 = cat.run(a, data)
            f1 = cat.freeze(r1)
            kept = cat.freeze(data)
            overwrite(data, second)
            after = cat.freeze(r1)
            r2 = cat.run(a, data)
            f2 = cat.freeze(r2)
            # results belong to the caller: writing to them changes neither the data nor later results
            before = cat.freeze(data)
            scribble(r2)
            scribble(r1)
            untouched = cat.freeze(data) == before
            f3 = cat.freeze(cat.run(a, data))
            overwrite(data, first)
            f4 = cat.freeze(cat.run(a, data))
            return want1, want2, f1, f2, f3, f4, after, changed, untouched, kept == cat.freeze(first)

    want1, want2, f1, f2, f3, f4, after, changed, untouched, kept = in_child(work)
    name = call.name
    ensure(want1[0] != "raised", f"{name}: raised {want1[1:]}")
    ensure(f1 == want1, f"{name}: two calls with equal data differ ({explain(f1, want1)})")
    ensure(kept, f"{name}: changed the caller's data")
    ensure(after == f1, f"{name}: an earlier result changed with the caller's data")
    ensure(f2 == want2, f"{name}: stale or mixed result after the data were changed in place ({explain(f2, want2)})")
    ensure(untouched, f"{name}: writing to a result changed the caller's data")
    ensure(f3 == want2, f"{name}: writing to an earlier result changed a later one ({explain(f3, want2)})")
    ensure(f4 == want1, f"{name}: stale result after the data were changed back ({explain(f4, want1)})")
    ctx.nontrivial(changed and want1 != want2)
    ctx.label(call.area)


# ------------------------------------------------------------------------------------------------ schedules
THREADED = [n for n in cat.CHEAP]


def test_threads(case, ctx):
    jobs = case["jobs"]
    specs = [s for job in jobs for s in job]
    want = pristine(specs)

    def schedule():
        results, errors = {}, []
        sys.setswitchinterval(1e-6)
        start = threading.Barrier(len(jobs))
        shared = {}
        with silent():
            for s in specs:
                call = cat.BY_NAME[s["name"]]
                if case["share"] and call.prepare is not None and key(s) not in shared:
                    inputs = cat.inputs_of(s)
                    shared[key(s)] = (inputs, call.prepare(inputs))
            # warnings.catch_warnings is not thread-safe: silence once, outside
            warnings.simplefilter("ignore")

            def worker(k):
                try:
                    start.wait(30)
                    for rep in range(3):
                        for j, s in enumerate(jobs[k]):
                            inputs, obj = shared.get(key(s), (None, None))
                            call = cat.BY_NAME[s["name"]]
                            r = cat.execute(call, cat.inputs_of(s) if inputs is None else inputs, obj)
                            results[k, j, rep] = cat.freeze(r)
                except BaseException as e:
                    errors.append(repr(e))

            threads = [threading.Thread(target=worker, args=(k,)) for k in range(len(jobs))]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        return results, errors

    results, errors = in_child(schedule)
    ensure(not errors, f"a call raised in a thread: {errors[:1]}")
    for (k, j, rep), g in sorted(results.items()):
        s = jobs[k][j]
        expect(g, want[key(s)], f"{s['name']} in thread {k} of {len(jobs)}" + (" on a shared object" if case["share"] else ""))
    ctx.nontrivial(len(jobs) >= 2)
    ctx.label("shared" if case["share"] else "separate")


@st.composite
def schedules(draw):
    names = draw(st.lists(st.sampled_from(THREADED), min_size=1, max_size=2))
    n = draw(st.sampled_from([14, 24]))
    spec = st.fixed_dictionaries({"name": st.sampled_from(names), "seed": st.integers(0, 2), "n": st.just(n), "container": st.integers(0, 1)})
    jobs = draw(st.lists(st.lists(spec, min_size=1, max_size=3), min_size=2, max_size=4))
    return {"jobs": jobs, "share": draw(st.booleans())}


# ------------------------------------------------------------------------------------------------ surroundings
def surroundings(where):
    root = logging.getLogger()
    lib = logging.getLogger("quantfinlib")
    return {
        "numpy's random state": cat.freeze(list(np.random.get_state(legacy=False)["state"].values())) + (str(np.random.get_state()[2:]),),
        "Python's random state": random.getstate(),
        "the warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "numpy's error handling": tuple(sorted(np.geterr().items())),
        "numpy's print options": str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "pandas options": str(sorted((o, str(pd.get_option(o))) for o in pd._config.config._select_options("all"))),
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "the files of the working directory": sorted(os.listdir(where)),
        "the logging set-up": (root.level, [type(h).__name__ for h in root.handlers], lib.level, lib.propagate, lib.disabled,
                               [type(h).__name__ for h in lib.handlers], logging.root.manager.disable),
        "the recursion limit": sys.getrecursionlimit(),
        "the number of threads": threading.active_count(),
        "the standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "the module search path": list(sys.path),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "the switch interval": sys.getswitchinterval(),
    }


def test_surroundings(case, ctx):
    spec = case["call"]

    def work():
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                np.random.seed(case["seed"] % 2**32)
                random.seed(case["seed"])
                warnings.resetwarnings()
                warnings.simplefilter("ignore")
                out, err = io.StringIO(), io.StringIO()
                inputs = cat.inputs_of(spec)
                call = cat.BY_NAME[spec["name"]]
                if case["warm"]:
                    with silent():
                        cat.execute(call, cat.inputs_of(spec))  # lazy imports
                    np.random.seed(case["seed"] % 2**32)
                logging.getLogger("quantfinlib").addHandler(logging.NullHandler())
                kept = cat.freeze(inputs)
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    before = surroundings(d)
                    cat.execute(call, inputs)
                    after = surroundings(d)
                diff = [k for k in before if before[k] != after[k]]
                return diff, out.getvalue(), err.getvalue(), kept == cat.freeze(inputs)
            finally:
                os.chdir("/")

    diff, out, err, kept = in_child(work)
    name = spec["name"]
    ensure(not diff, f"{name}: changed {', '.join(diff)}")
    ensure(out == "", f"{name}: printed {out[:80]!r}")
    ensure(kept, f"{name}: changed the caller's data")
    ctx.nontrivial(True)
    ctx.label(cat.BY_NAME[name].area)


# ------------------------------------------------------------------------------------------------ memory layouts
def relayout(x, kind):
    """The same numbers in other memory."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "fi" and x.ndim in (1, 2) and x.size:
        if kind == "readonly":
            x = x.copy()
            x.flags.writeable = False
            return x
        if kind == "fortran":
            return np.asfortranarray(x) if x.ndim == 2 else np.column_stack([x, x])[:, 0]
        if kind == "strided":
            big = np.zeros(tuple(2 * k for k in x.shape), dtype=x.dtype)
            view = big[tuple(slice(None, None, 2) for _ in x.shape)]
            view[...] = x
            return view
        if kind == "reversed":
            flip = tuple(slice(None, None, -1) for _ in x.shape)
            return x[flip].copy()[flip]
        if kind == "memmap":
            f = tempfile.NamedTemporaryFile()
            m = np.memmap(f, dtype=x.dtype, mode="w+", shape=x.shape)
            m[...] = x
            return m
        if kind == "bytes":
            return x.astype(x.dtype.newbyteorder(">"))
        if kind == "longdouble" and x.dtype.kind == "f":
            return x
    if isinstance(x, pd.Series) and kind == "readonly" and x.dtype.kind in "fi":
        v = x.to_numpy().copy()
        v.flags.writeable = False
        return pd.Series(v, index=x.index, name=x.name, copy=False)
    if isinstance(x, pd.DataFrame) and kind in ("readonly", "fortran", "strided"):
        v = relayout(x.to_numpy(), kind)
        return pd.DataFrame(v, index=x.index, columns=x.columns, copy=False)
    return x


# results of these may jump with rounding (the variance is picked from a grid)
LAYOUTS = ("readonly", "fortran", "strided", "reversed", "memmap")
FRAGILE = ("cov.denoise", "cov.cor_denoise", "cov.denoise_values")


def test_layout(case, ctx):
    spec = case["call"]
    name = spec["name"]

    def work():
        with silent(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            inputs = cat.inputs_of(spec)
            call = cat.BY_NAME[name]
            want = cat.numbers(cat.execute(call, copy.deepcopy(inputs)))
            other = [relayout(x, case["layout"]) for x in inputs]
            snaps = [np.array(x) for x in other if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame))]
            got = cat.numbers(cat.execute(call, other))
            now = [np.array(x) for x in other if isinstance(x, (np.ndarray, pd.Series, pd.DataFrame))]
            kept = all(np.array_equal(a, b) for a, b in zip(snaps, now))
            moved = any(a is not b for a, b in zip(other, inputs))
            return want, got, kept, moved

    want, got, kept, moved = in_child(work)
    ensure(kept, f"{name} on {case['layout']} data: changed the caller's data")
    ensure(len(want) == len(got), f"{name} on {case['layout']} data: {len(got)} results instead of {len(want)}")
    for a, b in zip(got, want):
        ensure(a.shape == b.shape, f"{name} on {case['layout']} data: shape {a.shape} instead of {b.shape}")
        fin = np.abs(b[np.isfinite(b)])
        top = fin.max() if fin.size else 0.0
        with np.errstate(all="ignore"):
            ok = np.isclose(a, b, rtol=1e-6, atol=1e-6 * top, equal_nan=True) | (np.abs(a * a - b * b) <= 1e-9 * top * top)
        ensure(np.all(ok), f"{name} on {case['layout']} data: {a[~ok][:3]} instead of {b[~ok][:3]}")
    ctx.nontrivial(moved)
    ctx.label(case["layout"])


# ------------------------------------------------------------------------------------------------ processes
def worker_main():
    """In a fresh interpreter: digests of the calls named on stdin."""
    specs = json.load(sys.stdin)
    out = []
    with silent():
        for s in specs:
            out.append(cat.digest(cat.freeze(cat.run(s))))
    json.dump(out, sys.stdout)


PROCESSES = (
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Kolkata", "LC_ALL": "C"},
    {"PYTHONHASHSEED": "77", "TZ": "America/New_York", "LC_ALL": "C.UTF-8", "PYTHONOPTIMIZE": "2"},
    {"PYTHONHASHSEED": "random", "TZ": "UTC", "COLUMNS": "40"},
)


def test_process(case, ctx):
    specs = [{"name": n, "seed": case["seed"], "n": case["n"], "container": case["container"]} for n in cat.NAMES]
    here = in_child(lambda: _digests(specs))
    order = rng(case["seed"]).permutation(len(specs))
    env = dict(os.environ, **PROCESSES[case["process"]], VERIF_REPO=bootstrap.REPO)
    code = (
        f"import sys; sys.path.insert(0, {bootstrap.ROOT!r})\nfrom pbt import bootstrap\nbootstrap.activate()\n"
        "from checks import c29_purity\nc29_purity.worker_main()"
    )
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([sys.executable, "-B", "-c", code], input=json.dumps([specs[i] for i in order]), capture_output=True,
                           text=True, cwd=d, env=env, timeout=200)
    if p.returncode != 0:
        raise HarnessError(f"worker failed: {p.stderr[-1500:]}")
    there = json.loads(p.stdout)
    for i, dg in zip(order, there):
        ensure(dg == here[i], f"{specs[i]['name']}: another result in a process with {PROCESSES[case['process']]}")
    ctx.nontrivial(True)


def _digests(specs):
    with silent():
        return [cat.digest(cat.freeze(cat.run(s))) for s in specs]


SUBS = [
    Sub("history", histories(), test_history, quick=160),
    Sub("in_place", st.fixed_dictionaries({"call": call_spec(), "other": st.integers(10, 14)}), test_in_place, quick=350),
    Sub("threads", schedules(), test_threads, quick=90),
    Sub("surroundings", st.fixed_dictionaries({"call": call_spec(), "seed": seeds(), "warm": st.just(True)}), test_surroundings, quick=250),
    Sub("layout", st.fixed_dictionaries({"call": call_spec(), "layout": st.sampled_from(LAYOUTS)}), test_layout, quick=500),
    Sub("process", st.fixed_dictionaries({"seed": seeds(), "n": st.sampled_from([16, 30]), "container": st.integers(0, 2), "process": st.integers(0, 2)}),
        test_process, quick=3, weight=0.5),
]
