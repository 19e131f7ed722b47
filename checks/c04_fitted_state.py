"""C04: defaults and fitted state survive every history of model calls."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.simlib import build, model_spec
from pbt.core import Sub, ensure, rng, same, seeds
from pbt.gen import random_cor

PROPERTY = "C04"
RULE = (
    "Generated histories of fit, path_sample, nll, aic and bic with differently typed data; non-trivial when a "
    "likelihood or simulation call with other data happened after the last fit."
)
ASSUMPTIONS = ["data have a regular or nearly regular date index, another index, or none", "every fit in the history succeeds"]

DURATION = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "W-WED": 7 / 365, "W-MON": 7 / 365, "ME": 1 / 12, "MS": 1 / 12,
            "QE": 1 / 4, "QS": 1 / 4, "YE": 1.0, "YS": 1.0, "QE-FEB": 1 / 4}
FREQS = sorted(DURATION)

data_st = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["array", "series", "frame"]),
        "index": st.sampled_from(["range", "dates", "holes", "irregular"]),
        "freq": st.sampled_from(FREQS),
        "rows": st.integers(24, 50),
        "cols": st.integers(1, 3),
        "seed": seeds(),
    }
)
dts = st.sampled_from([None, None, 0.1, 1, 1 / 252, 0.5, 2, 7.5])
op_st = st.one_of(
    st.fixed_dictionaries({"op": st.just("fit"), "data": st.integers(0, 3), "dt": dts, "overwrite": st.booleans()}),
    st.fixed_dictionaries({"op": st.sampled_from(["nll", "aic", "bic"]), "data": st.integers(0, 3), "dt": dts}),
    st.fixed_dictionaries(
        {
            "op": st.just("sim"),
            "x0": st.sampled_from(["none", "first", "last", "float"]),
            "dt": dts,
            "steps": st.integers(1, 6),
            "paths": st.integers(1, 3),
            "freq": st.sampled_from([None, None] + FREQS),
            "start": st.sampled_from([None, "2020-01-01", "2011-11-11"]),
            "columns": st.booleans(),
            "seed": seeds(),
        }
    ),
)
history = st.fixed_dictionaries(
    {"spec": model_spec(3), "data": st.lists(data_st, min_size=4, max_size=4), "ops": st.lists(op_st, min_size=1, max_size=10)}
)


def dates_of(d):
    """A date index and the duration of a step (None when it has no frequency)."""
    index = pd.date_range("2005-03-05", periods=d["rows"], freq=d["freq"])
    if d["index"] == "dates":
        return index, DURATION[d["freq"]]
    if d["index"] == "holes":
        # business days with holidays: still business days
        index = pd.date_range("2005-03-07", periods=d["rows"] + 2, freq="B")
        return index.delete([6, 14]), 1 / 252
    # irregular steps that match no calendar
    r = rng(d["seed"])
    index = pd.Timestamp("2005-03-05 11:00") + pd.to_timedelta(np.cumsum(r.integers(10, 25, d["rows"])), unit="D")
    return pd.DatetimeIndex(index), None


def make_data(d):
    """The data, the default dt of a fit or likelihood, and the (frequency, has dates) of its index."""
    r = rng(d["seed"])
    n = 1 if d["kind"] == "series" else d["cols"]
    L = np.linalg.cholesky(random_cor(n, d["seed"]))
    # a positive, mean-reverting path: valid data for every model
    y = np.zeros((d["rows"], n))
    for t in range(1, d["rows"]):
        y[t] = 0.7 * y[t - 1] + 0.2 * (L @ r.standard_normal(n))
    x = 20 * np.exp(y)
    if d["kind"] == "array":
        return x, 1 / 252, False
    if d["index"] == "range":
        index, dt, dated = pd.RangeIndex(d["rows"]), 1 / 252, False
    else:
        index, dt = dates_of(d)
        dt = 1 / 252 if dt is None else dt
        dated = True
    if d["kind"] == "series":
        return pd.Series(x[:, 0], index=index, name="p"), dt, dated
    return pd.DataFrame(x, index=index, columns=[f"c{i}" for i in range(n)]), dt, dated


def outcome(fn):
    """The result of a call, or the type of the exception."""
    try:
        r = fn()
    except Exception as e:
        return type(e).__name__, None
    return "ok", r


def compare(a, b, what):
    ensure(a[0] == b[0], f"{what}: {a[0]} instead of {b[0]}")
    if a[0] != "ok":
        return
    a, b = a[1], b[1]
    ensure(type(a) is type(b), f"{what}: {type(a).__name__} instead of {type(b).__name__}")
    same(np.asarray(a, float), np.asarray(b, float), what, rtol=1e-10)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        ensure(a.index.equals(b.index) and a.index.name == b.index.name, f"{what}: index differs")
        na = list(a.columns) if isinstance(a, pd.DataFrame) else a.name
        nb = list(b.columns) if isinstance(b, pd.DataFrame) else b.name
        ensure(na == nb, f"{what}: names {na}, expected {nb}")


def valid(model):
    p = [getattr(model, a) for a in ("drift", "mean", "mrr", "vol") if hasattr(model, a)]
    return all(np.all(np.isfinite(v)) for v in p) and np.all(np.asarray(model.vol) > 0)


def test_history(case, ctx):
    spec = dict(case["spec"], zero_vol=False)
    model = build(spec)
    pool = [make_data(d) for d in case["data"]]
    last = None
    noise = 0

    def fresh():
        m = build(spec)
        if last is not None:
            m.fit(last[0].copy(), dt=last[1])
        return m

    for i, o in enumerate(case["ops"]):
        kind = o["op"]
        n = np.asarray(model.vol).size
        if kind == "fit":
            data = pool[o["data"]][0]
            given = data.copy()
            model.fit(given, dt=o["dt"])
            if o["overwrite"]:
                # the caller reuses the memory of the data after the fit
                if isinstance(given, np.ndarray):
                    given[...] = 7.0
                else:
                    given.iloc[:] = 7.0
            last = (data, o["dt"])
            noise = 0
            if not valid(model):
                return
            continue
        if kind in ("nll", "aic", "bic"):
            data, default_dt, _ = pool[o["data"]]
            if data.ndim == 1:
                data = data if n == 1 else np.repeat(np.asarray(data)[:, None], n, axis=1) + np.arange(n)
            elif data.shape[1] != n:
                data = np.asarray(data)
                data = data[:, [0] * n] + np.arange(n)
            if not isinstance(data, (pd.Series, pd.DataFrame)):
                default_dt = 1 / 252
            expected = outcome(lambda: getattr(fresh(), kind)(data.copy(), dt=o["dt"] or default_dt))
            got = outcome(lambda: getattr(model, kind)(data.copy(), dt=o["dt"]))
            compare(got, expected, f"call {i} ({kind})")
            noise += 1
            continue
        kw = dict(num_steps=o["steps"], num_paths=o["paths"], random_state=o["seed"], dt=o["dt"])
        if o["x0"] != "none":
            kw["x0"] = 12.5 if o["x0"] == "float" else o["x0"]
        if o["freq"]:
            kw["label_freq"] = o["freq"]
        if o["start"]:
            kw["label_start"] = o["start"]
        if o["columns"]:
            kw["columns"] = [f"N{k}" for k in range(n)]
        expected = outcome(lambda: fresh().path_sample(**kw))
        got = outcome(lambda: model.path_sample(**kw))
        compare(got, expected, f"call {i} (path_sample)")
        if expected[0] == "ok":
            noise += 1
    ctx.nontrivial(noise >= 1 and last is not None)
    if not valid(model):
        return
    kw = dict(num_steps=4, num_paths=2, random_state=3, label_start="2020-01-01", label_freq="D")
    compare(outcome(lambda: model.path_sample(**kw)), outcome(lambda: fresh().path_sample(**kw)), "path_sample at the end")
    if last is not None:
        kw["x0"] = "last"
        compare(outcome(lambda: model.path_sample(**kw)), outcome(lambda: fresh().path_sample(**kw)), "path from 'last'")
        for name in ("nll", "aic", "bic"):
            compare(outcome(lambda: getattr(model, name)(last[0], dt=0.2)),
                    outcome(lambda: getattr(fresh(), name)(last[0], dt=0.2)), name)


default_case = st.fixed_dictionaries(
    {
        "spec": model_spec(3),
        "fit": st.sampled_from(["no", "default", "explicit", "explicit"]),
        "data": data_st,
        "fit_dt": st.sampled_from([0.1, 1, 0.04, 3, 12.5]),
        "freq": st.sampled_from([None, None, "h"] + FREQS),
        "x0": st.sampled_from(["none", "first", "last"]),
        "paths": st.integers(1, 3),
        "steps": st.integers(1, 5),
        "seed": seeds(),
    }
)


def test_defaults(case, ctx):
    """The documented fall-backs of dt and x0, compared with the same call with everything explicit."""
    spec = dict(case["spec"], zero_vol=False)
    data, default_dt, dated = make_data(case["data"])
    model = build(spec)
    fitted = case["fit"] != "no"
    if fitted:
        explicit = case["fit"] == "explicit"
        model.fit(data, dt=case["fit_dt"] if explicit else None)
        # the default dt of a fit is that of the date index
        ref = build(spec).fit(np.asarray(data), dt=case["fit_dt"] if explicit else default_dt)
        for a in ("drift", "mean", "mrr", "vol"):
            if hasattr(ref, a):
                same(getattr(model, a), getattr(ref, a), f"fitted {a}", rtol=1e-9)
        if not valid(model):
            return
        fit_dt = case["fit_dt"] if explicit else default_dt
    x = np.asarray(data).reshape(len(data), -1)
    n = np.asarray(model.vol).size
    freq = case["freq"]
    dt = DURATION.get(freq) if freq else None
    if dt is None:
        dt = fit_dt if fitted else 1 / 252
    x0 = case["x0"] if fitted else "none"
    if x0 == "last":
        start = x[-1]
    elif fitted:
        start = x[0]
    else:
        start = np.full(n, 100.0 if spec["model"] == "gbm" else 0.0)
    kw = dict(num_steps=case["steps"], num_paths=case["paths"], random_state=case["seed"])
    labels = {}
    if freq:
        labels["label_freq"] = freq
        if not (fitted and dated):
            labels["label_start"] = "2020-05-05"
    elif fitted and dated and case["data"]["index"] == "irregular":
        labels["label_freq"] = "h"  # no frequency is known: one is needed for the labels; it implies no duration
    if x0 != "none":
        labels["x0"] = x0
    got = np.asarray(model.path_sample(**kw, **labels))
    want = np.asarray(model.path_sample(x0=start, dt=dt, label_start="2020-01-01", label_freq="D", **kw))
    ctx.nontrivial(fitted or freq is not None)
    ctx.label(case["fit"])
    same(got.reshape(want.shape) if got.size == want.size else got, want, "path with default x0 and dt", rtol=1e-10)
    same(got.reshape(len(got), -1)[0], np.tile(start, case["paths"]), "first row", rtol=1e-10)
    # the default dt of the likelihoods is that of the date index of the data at hand, not that of the fit
    if x.shape[1] == n:
        for name in ("nll", "aic", "bic"):
            same(getattr(model, name)(data), getattr(model, name)(x, dt=default_dt), f"default dt of {name}", rtol=1e-9)
            same(getattr(model, name)(data, dt=0.3), getattr(model, name)(x, dt=0.3), f"explicit dt of {name}", rtol=1e-9)


SUBS = [
    Sub("history", history, test_history, quick=900),
    Sub("defaults", default_case, test_defaults, quick=900),
]
