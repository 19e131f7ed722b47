"""C06: likelihood, AIC and BIC are those of the simulated transition density."""

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.simlib import MODELS, build, model_spec, params
from pbt.core import Sub, ensure, rng, same, seeds
from pbt.gen import random_cor

PROPERTY = "C06"
RULE = "Generated models (fitted or not, 1-11 variates, correlated or not), data, containers and dt; non-trivial when there are at least two steps."
ASSUMPTIONS = ["positive volatilities, positive definite correlations", "positive data for geometric Brownian motion"]

case_st = st.fixed_dictionaries(
    {
        "spec": model_spec(4, wide=True),
        "fitted": st.booleans(),
        "rows": st.one_of(st.integers(2, 15), st.sampled_from([60, 300])),
        "dt": st.sampled_from([1.0, 1, 0.5, 0.1, 1 / 12, 1 / 252, 1 / 252, 1 / 252, 1e-5, 1e-7, 3e-8, 4.0]),
        "container": st.sampled_from(["array", "frame", "dated", "series", "array1d", "ints", "uint16", "uint64"]),
        "split": st.floats(0, 1),
        "seed": seeds(),
    }
)


def make_data(case, n, kind="", vol=1.0):
    r = rng(case["seed"])
    z = np.cumsum(0.1 * r.standard_normal((case["rows"], n)), axis=0)
    x = 20 * np.exp(z)
    if case["spec"]["scales"] and not case["fitted"] and kind == "gbm":
        x = 20 * np.exp(z * vol)
    elif case["spec"]["scales"] and not case["fitted"]:
        x = x * vol
    if case["container"] in ("ints", "uint16", "uint64"):
        x = np.minimum(np.round(x) + 1, 60000).astype(int)
    return x


def wrap(x, container):
    if container == "frame":
        return pd.DataFrame(x)
    if container == "dated":
        return pd.DataFrame(x, index=pd.date_range("2001-01-31", periods=len(x), freq="ME"))
    if container == "series":
        return pd.Series(x[:, 0])
    if container == "array1d":
        return x[:, 0].copy()
    if container in ("uint16", "uint64"):
        return x.astype(container)
    return x.copy()


def density(kind, p, cor, x, dt):
    """Minus the log density of every step, from the exact Gaussian transition of the SDE."""
    x = np.asarray(x, dtype=float)
    n = x.shape[1]
    v = p["vol"]
    if kind == "bm":
        e, s = x[1:] - x[:-1] - p["drift"] * dt, v * math.sqrt(dt)
    elif kind == "gbm":
        e, s = np.log(x[1:]) - np.log(x[:-1]) - (p["drift"] - v * v / 2) * dt, v * math.sqrt(dt)
    else:
        a = np.exp(-p["mrr"] * dt)
        e = x[1:] - p["mean"] - (x[:-1] - p["mean"]) * a
        s = v * np.sqrt(-np.expm1(-2 * p["mrr"] * dt) / (2 * p["mrr"]))
    u = e / s
    if cor is None:
        cor = np.eye(n)
    w = np.linalg.solve(cor, u.T).T
    sign, logdet = np.linalg.slogdet(cor)
    return 0.5 * np.sum(u * w, axis=1) + np.sum(np.log(s)) + 0.5 * logdet + 0.5 * n * math.log(2 * math.pi)


def n_parameters(kind, n, cor):
    return (3 if kind == "ou" else 2) * n + (n * (n - 1) // 2 if cor is not None else 0)


def parameters_of(model, kind):
    names = ("mean", "mrr", "vol") if kind == "ou" else ("drift", "vol")
    return {k: np.asarray(getattr(model, k), float).ravel() for k in names}, model.cor


def test_density(case, ctx):
    spec = dict(case["spec"], zero_vol=False)
    kind, dt = spec["model"], case["dt"]
    n = 1 if case["container"] in ("series", "array1d") else spec["variates"]
    spec["variates"] = n
    model = build(spec)
    if case["fitted"]:
        r = rng(case["seed"] + 1)
        y = np.zeros((40, n))
        L = np.linalg.cholesky(random_cor(n, case["seed"]))
        for t in range(1, 40):
            y[t] = 0.6 * y[t - 1] + 0.1 * (L @ r.standard_normal(n))
        model.fit(20 * np.exp(y), dt=0.3)
        p, cor = parameters_of(model, kind)
        if not all(np.all(np.isfinite(v)) for v in p.values()) or (kind == "ou" and np.any(p["mrr"] < 1e-3)):
            return
    else:
        p, cor = params(spec)
    x = make_data(case, n, kind, p["vol"])
    data = wrap(x, case["container"])
    steps = density(kind, p, cor, x, dt)
    want = float(np.sum(steps))
    scale = float(np.sum(np.abs(steps))) + 1
    rows = len(x)
    ctx.nontrivial(rows > 2)
    ctx.label(kind, "fitted" if case["fitted"] else "given", "correlated" if cor is not None else "independent")
    tol = dict(rtol=1e-7, atol=1e-7 * scale)
    nll = model.nll(data, dt=dt)
    same(nll, want, "nll", **tol)
    k = n_parameters(kind, n, cor)
    if spec["form"] == "shared" and not case["fitted"]:  # one volatility (and mean-reversion rate) for all variates
        k -= (2 if kind == "ou" else 1) * (n - 1)
    same(model.aic(data, dt=dt), 2 * k + 2 * want, "aic", **tol)
    same(model.bic(data, dt=dt), k * math.log(rows) + 2 * want, "bic", **tol)
    # the penalty terms exactly, whatever the size of the likelihood
    same(model.aic(data, dt=dt) - 2 * nll, 2 * k, "aic - 2 nll", rtol=1e-6, atol=1e-9 * scale)
    same(model.bic(data, dt=dt) - 2 * nll, k * math.log(rows), "bic - 2 nll", rtol=1e-6, atol=1e-9 * scale)
    # additivity over time
    cut = 1 + int(case["split"] * (rows - 2))
    if 1 <= cut < rows - 1:
        a, b = model.nll(wrap(x[: cut + 1], case["container"]), dt=dt), model.nll(wrap(x[cut:], case["container"]), dt=dt)
        same(a + b, nll, f"nll of the two parts at row {cut}", **tol)
    # uncorrelated variates add up
    if cor is None and n > 1:
        total = 0.0
        for i in range(n):
            one = MODELS[kind](**{name: float(v[i]) for name, v in p.items()})
            total += one.nll(x[:, [i]], dt=dt)
        same(total, nll, "sum of the likelihoods of uncorrelated variates", **tol)


def test_best(case, ctx):
    """The likelihood prefers the data-generating drift and volatility over clearly different ones."""
    spec = dict(case["spec"], zero_vol=False)
    kind, n = spec["model"], spec["variates"]
    p, cor = params(spec)
    p["vol"] = np.clip(p["vol"], 0.1, 0.5)
    if kind == "ou":
        p["mrr"] = np.clip(p["mrr"], 0.5, 5)
    else:
        p["drift"] = np.clip(p["drift"], -0.4, 0.4)
    dt = 0.05
    make = lambda **q: MODELS[kind](cor=cor, **{**{k: v.copy() for k, v in p.items()}, **q})
    x = make().path_sample(x0=10.0 if kind == "gbm" else 0.0, dt=dt, num_steps=600, random_state=case["seed"])
    ctx.nontrivial()
    best = make().nll(x, dt=dt)
    for f in (0.6, 1.6):
        ensure(make(vol=p["vol"] * f).nll(x, dt=dt) > best, f"vol x {f} has a better likelihood than the true model")
    loc = "mean" if kind == "ou" else "drift"
    # the mean/drift has a standard error; move it by 12 of them
    se = p["vol"] / p["mrr"] / np.sqrt(30) if kind == "ou" else p["vol"] / np.sqrt(30)
    for s in (-12, 12):
        ensure(make(**{loc: p[loc] + s * se}).nll(x, dt=dt) > best, f"{loc} {s} standard errors off has a better likelihood")


SUBS = [
    Sub("density", case_st, test_density, quick=1500),
    Sub("best", st.fixed_dictionaries({"spec": model_spec(3), "seed": seeds()}), test_best, quick=80),
]
