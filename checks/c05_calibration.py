"""C05: calibration recovers the model's parameters per column."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.simlib import MODELS, model_spec, params
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import random_cor

PROPERTY = "C05"
RULE = "Generated data sets (walks, mean-reverting, jumping, integer, trending; 1-9 columns; several containers) and dt; non-trivial when there is noise."
ASSUMPTIONS = ["at least 3 rows, and more rows than columns + 1", "positive data for geometric Brownian motion",
               "Ornstein-Uhlenbeck slopes within 1e-4 of 1 (no mean reversion) are not compared numerically"]

data_st = st.fixed_dictionaries(
    {
        "model": st.sampled_from(["bm", "gbm", "ou"]),
        "shape": st.sampled_from(["walk", "reverting", "noise", "ints", "trend", "antipersistent", "jumps"]),
        "rows": st.one_of(st.integers(8, 40), st.sampled_from([3, 4, 200, 600])),
        "cols": st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 6, 9])),
        "dt": st.sampled_from([1.0, 1, 0.25, 1 / 12, 1 / 252, 2]),
        "container": st.sampled_from(["array", "frame", "dated", "series", "array1d"] * 2 + list(("int16", "int32", "uint16", "uint32", "uint64"))),
        "perm": st.integers(0, 1000),
        "scale": st.sampled_from([0.5, 2.0, 10.0, 1000.0]),
        "seed": seeds(),
    }
)


def make_data(case):
    r = rng(case["seed"])
    n, rows = case["cols"], max(case["rows"], case["cols"] + 2)
    if case["container"] in ("series", "array1d"):
        n = 1
    z = r.standard_normal((rows, n)) @ np.linalg.cholesky(random_cor(n, case["seed"])).T
    z = z * np.exp(r.normal(0, 1, n))
    s = case["shape"]
    if s == "walk":
        x = 5 + np.cumsum(z, axis=0)
    elif s in ("reverting", "antipersistent"):
        a = r.uniform(0.05, 0.95, n) if s == "reverting" else -r.uniform(0.2, 0.9, n)
        x = np.zeros((rows, n))
        for t in range(1, rows):
            x[t] = a * x[t - 1] + z[t]
        x = x + r.normal(0, 5, n)
    elif s == "jumps":
        z[r.integers(0, rows)] *= 40
        x = 5 + np.cumsum(z, axis=0)
    elif s == "noise":
        x = z + 3
    elif s == "ints":
        x = np.cumsum(r.integers(-3, 4, (rows, n)), axis=0)
    else:
        x = 0.3 * z + np.arange(rows)[:, None] * r.uniform(-2, 2, n)
    if case["container"] in INT_TYPES:
        return as_integers(x)
    if case["model"] == "gbm":
        if s == "ints":
            x = x - x.min() + 1 + r.integers(0, 3, (rows, n))
        else:
            x = 10 * np.exp(x / (1 + np.max(np.abs(x))) * 2)
    return x


def wrap(x, container):
    n = x.shape[1]
    if container == "frame":
        return pd.DataFrame(x, columns=[f"c{i}" for i in range(n)])
    if container == "dated":
        return pd.DataFrame(x, index=pd.date_range("2001-01-01", periods=len(x), freq="D"), columns=list("abcdefghi")[:n])
    if container == "series":
        return pd.Series(x[:, 0], name="s")
    if container == "array1d":
        return x[:, 0].copy()
    if container in INT_TYPES:
        return x.astype(container)
    return x.copy()


INT_TYPES = ("int16", "int32", "uint16", "uint32", "uint64")


def as_integers(x):
    """Positive whole numbers of at most 30000, with enough digits to keep the shape of the data."""
    lo, hi = x.min(), x.max()
    return np.round((x - lo) / ((hi - lo) or 1.0) * 20000) + 5000


def mean(v):
    return sum(float(e) for e in v) / len(v)


def reference(kind, x, dt):
    """The estimators, column by column, from their definition. Returns parameters and the changes/residuals."""
    rows, n = x.shape
    out = {k: np.zeros(n) for k in (("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol"))}
    res = np.zeros((rows - 1, n))
    safe = np.ones(n, bool)
    for i in range(n):
        c = np.asarray(x[:, i], dtype=float)
        if kind in ("bm", "gbm"):
            d = c[1:] - c[:-1] if kind == "bm" else np.log(c[1:]) - np.log(c[:-1])
            m = mean(d)
            s = (sum((d - m) ** 2) / (len(d) - 1)) ** 0.5
            out["vol"][i] = s / dt**0.5
            out["drift"][i] = m / dt + (0.5 * s * s / dt if kind == "gbm" else 0.0)
            res[:, i] = d
        else:
            u, y = c[:-1], c[1:]
            mu, my = mean(u), mean(y)
            den = sum((u - mu) ** 2)
            a = sum((u - mu) * (y - my)) / den if den > 0 else 0.0
            b = my - a * mu
            # ill-conditioned or at the edge of the documented clipping of non-positive slopes
            scale = max(1.0, np.max(np.abs(u)))
            safe[i] = den > 1e-6 * scale**2 and abs(a - 1e-8) > 1e-6 and abs(1 - a) > 1e-4
            if a <= 1e-8:
                a, b = 1e-8, my
            e = y - (a * u + b)
            me = mean(e)
            sd = (sum((e - me) ** 2) / (len(e) - 1)) ** 0.5
            res[:, i] = e
            with np.errstate(all="ignore"):
                out["mrr"][i] = -np.log(a) / dt
                out["mean"][i] = b / (1 - a)
                out["vol"][i] = np.sqrt(2 * out["mrr"][i] * sd**2 / (1 - a * a))
    return out, res, safe


def fit(kind, data, dt):
    model = MODELS[kind]()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        back = model.fit(data, dt=dt)
    ensure(back is model, "fit must return the model")
    return model


NAMES = {"bm": ("drift", "vol"), "gbm": ("drift", "vol"), "ou": ("mean", "mrr", "vol")}


def test_estimators(case, ctx):
    kind, dt = case["model"], case["dt"]
    x = make_data(case)
    n = x.shape[1]
    want, res, safe = reference(kind, x, dt)
    sd = res.std(axis=0)
    degenerate = sd <= 1e-9 * (1 + np.abs(res).max(axis=0))
    if n > 1:
        if np.any(degenerate):
            return
        c = np.corrcoef(res, rowvar=False)
        if np.linalg.eigvalsh(c).min() < 1e-6:
            return
    model = fit(kind, wrap(x, case["container"]), dt)
    ctx.nontrivial(not np.all(degenerate))
    ctx.label(kind, case["shape"])
    size = {"drift": np.abs(res).max() / dt, "mean": np.abs(x).max(), "mrr": 0.0, "vol": np.abs(res).max() / dt**0.5}
    for name in NAMES[kind]:
        v = np.asarray(getattr(model, name), dtype=float)
        ensure(v.size == n, f"{name} has {v.size} entries for {n} columns")
        v = v.ravel()
        for i in range(n):
            if safe[i] and not (kind == "ou" and degenerate[i]):
                same(v[i], want[name][i], f"{name} of column {i}", rtol=1e-5 if kind == "ou" else 1e-8,
                     atol=1e-9 * size[name])
    if n > 1:
        ensure(model.cor is not None, "no correlations for several columns")
        if np.all(safe):
            same(model.cor, c, "correlation matrix", rtol=1e-6, atol=1e-7)
    else:
        ensure(model.cor is None, "correlations for a single column")


def test_relations(case, ctx):
    kind, dt = case["model"], case["dt"]
    x = make_data(case)
    n = x.shape[1]
    _, res, safe = reference(kind, x, dt)
    if np.any(res.std(axis=0) <= 1e-6 * (1 + np.abs(res).max(axis=0))) or not np.all(safe):
        return
    if n > 1 and np.linalg.eigvalsh(np.corrcoef(res, rowvar=False)).min() < 1e-6:
        return
    ctx.nontrivial()
    base = fit(kind, x.copy(), dt)
    get = lambda m, name: np.asarray(getattr(m, name), float).ravel()
    tol = dict(rtol=1e-5 if kind == "ou" else 1e-8, atol=1e-8 * (1 + np.abs(x).max()))
    # containers
    boxed = fit(kind, wrap(x, case["container"]), dt)
    for name in NAMES[kind]:
        same(get(boxed, name), get(base, name), f"{name} from {case['container']}", rtol=1e-9, atol=1e-12)
    # columns alone
    for i in range(n):
        one = fit(kind, x[:, [i]].copy(), dt)
        for name in NAMES[kind]:
            same(get(one, name), get(base, name)[[i]], f"{name} of column {i} fitted alone", **tol)
    # permutation
    perm = np.random.default_rng(case["perm"]).permutation(n)
    p = fit(kind, x[:, perm].copy(), dt)
    for name in NAMES[kind]:
        same(get(p, name), get(base, name)[perm], f"{name} of permuted columns", **tol)
    if n > 1:
        same(p.cor, np.asarray(base.cor)[np.ix_(perm, perm)], "correlations of permuted columns", rtol=1e-6, atol=1e-8)
    # time scale
    q = fit(kind, x.copy(), dt * 4)
    same(get(q, "vol") * 2, get(base, "vol"), "vol for another dt", **tol)
    for name in ("drift", "mrr"):
        if name in NAMES[kind]:
            same(get(q, name) * 4, get(base, name), f"{name} for another dt", **tol)
    # scale of the data
    s = fit(kind, x * case["scale"], dt)
    k = 1.0 if kind == "gbm" else case["scale"]
    tol["atol"] *= max(1.0, k)
    for name in NAMES[kind]:
        f = 1.0 if name == "mrr" else k
        same(get(s, name), get(base, name) * f, f"{name} for scaled data", **tol)
    if kind == "bm":
        t = fit(kind, x + 17.0, dt)
        same(get(t, "drift"), get(base, "drift"), "drift for shifted data", rtol=1e-6, atol=1e-8 * (1 + np.abs(x).max()) / dt)


round_case = st.fixed_dictionaries(
    {"spec": model_spec(3), "dt": st.sampled_from([0.1, 0.02, 1.0]), "rows": st.sampled_from([3000, 20000]), "seed": seeds()}
)


def test_round_trip(case, ctx):
    spec = dict(case["spec"], zero_vol=False)
    kind, dt, n = spec["model"], case["dt"], spec["variates"]
    p, cor = params(spec)
    if kind == "gbm":
        p["vol"] = np.clip(p["vol"], 0.05, 0.5)
        p["drift"] = np.clip(p["drift"], -0.3, 0.3)
        dt = min(dt, 300.0 / case["rows"])
    if kind == "ou":
        p["mrr"] = np.clip(p["mrr"], 0.1 / dt, 1.5 / dt)
    kw = {k: v.copy() for k, v in p.items()}
    if cor is not None:
        kw["cor"] = cor
    x0 = 50.0 if kind == "gbm" else (p["mean"] if kind == "ou" else 0.0)
    N = case["rows"]
    x = np.asarray(MODELS[kind](**kw).path_sample(x0=x0, dt=dt, num_steps=N, random_state=case["seed"]))
    m = fit(kind, x, dt)
    ctx.nontrivial()
    ctx.label(kind)
    get = lambda name: np.asarray(getattr(m, name), float).ravel()
    Z = 8.0  # standard errors
    if kind in ("bm", "gbm"):
        err = Z * p["vol"] / np.sqrt(2 * N)
        ensure(np.all(np.abs(get("vol") - p["vol"]) < err * 1.1), f"vol {get('vol')} from {p['vol']}")
        err = Z * p["vol"] / np.sqrt(N * dt) + Z * p["vol"] ** 2 / np.sqrt(2 * N)
        ensure(np.all(np.abs(get("drift") - p["drift"]) < err), f"drift {get('drift')} from {p['drift']}")
    else:
        a, ahat = np.exp(-p["mrr"] * dt), np.exp(-get("mrr") * dt)
        err = Z * np.sqrt((1 - a * a) / N) + 10 / N
        ensure(np.all(np.abs(a - ahat) < err), f"mrr {get('mrr')} from {p['mrr']}")
        err = 1.5 * Z * p["vol"] / (p["mrr"] * np.sqrt(N * dt))
        ensure(np.all(np.abs(get("mean") - p["mean"]) < err), f"mean {get('mean')} from {p['mean']}")
        c = p["vol"] * np.sqrt(-np.expm1(-2 * p["mrr"] * dt) / (2 * p["mrr"]))
        chat = get("vol") * np.sqrt(-np.expm1(-2 * get("mrr") * dt) / (2 * get("mrr")))
        ensure(np.all(np.abs(c - chat) < 1.1 * Z * c / np.sqrt(2 * N)), f"vol {get('vol')} from {p['vol']}")
    if n > 1:
        want = np.eye(n) if cor is None else cor
        err = Z * (1 - want**2) / np.sqrt(N) + 20 / N
        ensure(np.all(np.abs(m.cor - want) < err + 1e-9), f"correlation {m.cor} from {want}")


zero_case = st.fixed_dictionaries(
    {"model": st.sampled_from(["bm", "gbm"]), "cols": st.integers(1, 4), "rows": st.integers(6, 20), "which": st.integers(0, 3), "seed": seeds()}
)


def test_constant_column(case, ctx):
    """A column without changes has zero volatility; several columns then have no correlation and are rejected."""
    r = rng(case["seed"])
    x = np.exp(np.cumsum(0.1 * r.standard_normal((case["rows"], case["cols"])), axis=0))
    x[:, case["which"] % case["cols"]] = 4.0
    ctx.nontrivial()
    if case["cols"] == 1:
        m = fit(case["model"], x, 0.5)
        same(np.ravel(m.vol), [0.0], "vol of constant data")
        same(np.ravel(m.drift), [0.0], "drift of constant data")
    else:
        rejects(lambda: MODELS[case["model"]]().fit(x, dt=0.5), ValueError, "fit with a constant column")


SUBS = [
    Sub("estimators", data_st, test_estimators, quick=900),
    Sub("relations", data_st, test_relations, quick=500),
    Sub("round_trip", round_case, test_round_trip, quick=60),
    Sub("constant", zero_case, test_constant_column, quick=60),
]
