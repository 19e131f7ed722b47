"""C02: simulation is reproducible and free of side effects."""

import contextlib
import copy
import io
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.simlib import build, model_spec
from pbt.core import Sub, ensure, identical, rng, seeds, violate
from pbt.gen import snapshot, unchanged
from quantfinlib.sim import BrownianMotion, QuasiRandom

PROPERTY = "C02"
RULE = (
    "Generated histories of simulation, fit, likelihood and unrelated random calls around a repeated target simulation; "
    "non-trivial when at least two other calls happen between repetitions of the target."
)
ASSUMPTIONS = ["random_state is a non-negative integer or None"]

run_seeds = st.one_of(st.sampled_from([0, 1, 42, 2**31, 2**32, 2**63 - 1]), seeds())
PARAM_NAMES = ("drift", "mean", "mrr", "vol", "cor", "f_signal_vol")


def indicator(x):
    return np.tanh(np.diff(x, prepend=x[0])) + 0.01 * np.arange(len(x))


target = st.fixed_dictionaries(
    {
        "spec": model_spec(3),
        "quasi": st.sampled_from([False, False, True]),
        "fitted": st.sampled_from(["no", "array", "series", "frame"]),
        "steps": st.one_of(st.integers(1, 30), st.sampled_from([252, 1500])),
        "paths": st.one_of(st.integers(1, 4), st.just(40)),
        "x0": st.sampled_from(["none", "float", "array"]),
        "labels": st.booleans(),
        "include_x0": st.booleans(),
        "seed": run_seeds,
    }
)
op = st.one_of(
    st.fixed_dictionaries({"op": st.sampled_from(["np_draw", "py_draw", "gen_draw", "mutate"])}),
    st.fixed_dictionaries({"op": st.just("np_seed"), "seed": st.integers(0, 2**32 - 1)}),
    st.fixed_dictionaries(
        {"op": st.sampled_from(["sim", "sim_none", "fit", "nll", "quasi"]), "spec": model_spec(3), "seed": run_seeds,
         "steps": st.integers(2, 12)}
    ),
    st.fixed_dictionaries({"op": st.sampled_from(["again", "fresh", "self_none", "self_nll", "other_seed", "far_seed"])}),
)
history_case = st.fixed_dictionaries({"target": target, "ops": st.lists(op, min_size=1, max_size=12)})


def data_for(spec, rows, seed, container="array"):
    n = spec["variates"]
    x = np.exp(np.cumsum(0.05 * rng(seed % 2**32).standard_normal((rows, n)), axis=0))
    if container == "series":
        return pd.Series(x[:, 0], index=pd.date_range("2020-01-01", periods=rows, freq="D"), name="p")
    if container == "frame":
        return pd.DataFrame(x, columns=[f"c{i}" for i in range(n)])
    return x


def variates(t):
    return 1 if t["fitted"] == "series" else t["spec"]["variates"]


def make_target(t):
    spec = dict(t["spec"], variates=variates(t))
    model = build(spec)
    data = None
    if t["quasi"]:
        return QuasiRandom(indicator, 0.3, model), None
    if t["fitted"] != "no":
        data = data_for(spec, 40, t["seed"], t["fitted"])
        model.fit(data, dt=0.1)
    return model, data


def call_kw(t, model):
    n = variates(t)
    kw = dict(num_steps=t["steps"], num_paths=t["paths"], include_x0=t["include_x0"], dt=0.02)
    if t["quasi"]:
        kw["num_steps"] = t["steps"] + 5
    if t["x0"] == "float" or (t["quasi"] and t["x0"] == "none"):
        kw["x0"] = 2.5
    elif t["x0"] == "array":
        kw["x0"] = np.linspace(1.0, 2.0, n)
    if t["labels"]:
        kw["label_start"], kw["label_freq"] = "2020-01-01", "D"
    return kw


def state_of(model):
    out = {}
    for name in PARAM_NAMES:
        if hasattr(model, name):
            out[name] = copy.deepcopy(getattr(model, name))
    if hasattr(model, "base_model"):
        out["base"] = state_of(model.base_model)
    return out


def same_state(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        if k == "base":
            if not same_state(a[k], b[k]):
                return False
        elif (a[k] is None) != (b[k] is None):
            return False
        elif a[k] is not None and not np.array_equal(np.asarray(a[k], float), np.asarray(b[k], float), equal_nan=True):
            return False
    return True


@contextlib.contextmanager
def guarded(what, *inputs):
    """The library call inside must be silent and leave inputs and the global random states alone."""
    np_before, py_before = np.random.get_state(), random.getstate()
    snaps = snapshot(*inputs)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield
    np_after = np.random.get_state()
    ensure(np_before[0] == np_after[0] and np.array_equal(np_before[1], np_after[1]) and np_before[2:] == np_after[2:],
           f"{what}: changed numpy's global random state")
    ensure(py_before == random.getstate(), f"{what}: changed Python's global random state")
    ensure(out.getvalue() == "", f"{what}: printed {out.getvalue()[:80]!r}")
    unchanged(inputs, snaps, what)


def same_result(a, b, what):
    ensure(type(a) is type(b), f"{what}: {type(a).__name__} instead of {type(b).__name__}")
    identical(np.asarray(a), np.asarray(b), what)
    if isinstance(a, (pd.Series, pd.DataFrame)):
        ensure(a.index.equals(b.index), f"{what}: index differs")
        names = (list(a.columns), list(b.columns)) if isinstance(a, pd.DataFrame) else (a.name, b.name)
        ensure(names[0] == names[1], f"{what}: columns differ")


def test_history(case, ctx):
    t = case["target"]
    model, data = make_target(t)
    kw = call_kw(t, model)
    inputs = [v for v in kw.values() if isinstance(v, np.ndarray)]
    with guarded("path_sample", *inputs):
        first = model.path_sample(random_state=t["seed"], **kw)
    keep = first.copy()
    others = 0
    params0 = state_of(model)
    for i, o in enumerate(case["ops"]):
        what = f"call {i} ({o['op']})"
        kind = o["op"]
        if kind == "np_draw":
            np.random.normal(size=3)
        elif kind == "py_draw":
            random.random()
        elif kind == "gen_draw":
            np.random.default_rng(t["seed"]).normal(size=5)
        elif kind == "np_seed":
            np.random.seed(o["seed"])
        elif kind == "mutate":
            # a result belongs to the caller: changing it must not influence later calls
            if isinstance(first, np.ndarray):
                first[...] = -1.0
            else:
                first.iloc[:] = -1.0
        elif kind in ("sim", "sim_none", "quasi"):
            other = build(o["spec"])
            if kind == "quasi":
                other = QuasiRandom(indicator, 0.5, other)
            before = state_of(other)
            with guarded(what):
                other.path_sample(x0=1.0, dt=0.1, num_steps=o["steps"] + 6, num_paths=2,
                                  random_state=None if kind == "sim_none" else o["seed"])
            ensure(same_state(before, state_of(other)), f"{what}: simulation changed the parameters of the model")
        elif kind in ("fit", "nll"):
            other = build(dict(o["spec"], zero_vol=False))
            d = data_for(o["spec"], (30, 30, 3000)[o["seed"] % 3] + o["steps"], o["seed"], "frame" if o["seed"] % 2 else "array")
            before = state_of(other)
            with guarded(what, d):
                if kind == "fit":
                    other.fit(d, dt=0.1)
                else:
                    other.nll(d, dt=0.1), other.aic(d, dt=0.1), other.bic(d, dt=0.1)
            if kind == "nll":
                ensure(same_state(before, state_of(other)), f"{what}: a likelihood changed the parameters of the model")
        elif kind == "self_none":
            with guarded(what, *inputs):
                a = model.path_sample(**kw)
                b = model.path_sample(**kw)
            vol = np.asarray(getattr(model, "vol", getattr(getattr(model, "base_model", None), "vol", 1.0)))
            if np.all(vol > 0) and (t["steps"] > 0):
                ensure(not np.array_equal(np.asarray(a), np.asarray(b)), f"{what}: two unseeded simulations are equal")
        elif kind == "self_nll":
            if hasattr(model, "nll") and np.all(np.asarray(model.vol) > 0):
                n = np.asarray(model.vol).size
                with guarded(what):
                    model.nll(data_for({"variates": n}, 12, t["seed"]), dt=0.3)
        elif kind in ("other_seed", "far_seed"):
            vol = np.asarray(getattr(model, "vol", 1.0))
            with guarded(what, *inputs):
                b = model.path_sample(random_state=t["seed"] + (1 if kind == "other_seed" else 2**32), **kw)
            if np.all(vol > 0) and not t["quasi"]:
                ensure(not np.array_equal(np.asarray(b), np.asarray(keep)), f"{what}: two seeds give the same path")
        elif kind == "again":
            with guarded(what, *inputs):
                again = model.path_sample(random_state=t["seed"], **kw)
            same_result(again, keep, f"{what}: repeated simulation with the same seed")
            continue
        elif kind == "fresh":
            fresh, _ = make_target(t)
            with guarded(what, *inputs):
                again = fresh.path_sample(random_state=t["seed"], **kw)
            same_result(again, keep, f"{what}: simulation with the same seed by an equal model")
            continue
        others += 1
        ensure(same_state(params0, state_of(model)), f"{what}: the parameters of another model changed")
    ctx.nontrivial(others >= 2)
    with guarded("path_sample", *inputs):
        again = model.path_sample(random_state=t["seed"], **kw)
    same_result(again, keep, "simulation with the same seed at the end of the history")
    with guarded("path_sample", *inputs):
        again = model.path_sample(random_state=np.int64(t["seed"] % 2**62), **kw)
    if t["seed"] < 2**62:
        same_result(again, keep, "simulation with the same seed as numpy integer")


SUBS = [Sub("history", history_case, test_history, quick=1000)]
