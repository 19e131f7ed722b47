"""C11: technical indicators equal their textbook definitions."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.feature.indicators as ind
from checks import featlib as fl
from pbt.core import Sub, ensure, rng, seeds, violate

PROPERTY = "C11"
RULE = "the indicator is defined for at least one observation and the series is not constant"
ASSUMPTIONS = [
    "values are compared up to rounding (1e-9 of the size of the series; variances 1e-12 of the largest square)",
    "RSI is compared where the average change in the window is above rounding level",
    "missing values are part of the claim for rolling and exponentially weighted mean, deviation, extremes and momentum",
]
NAN = float("nan")


# ------------------------------------------------------------------------------------------ reference definitions
def rolling(x, w, f):
    out = np.full(len(x), np.nan)
    for t in range(w - 1, len(x)):
        win = x[t - w + 1 : t + 1]
        if not np.isnan(win).any():
            out[t] = f(win)
    return out


def ewm_terms(x, a, t):
    """Weights and values of the non-missing observations up to t."""
    i = np.flatnonzero(~np.isnan(x[: t + 1]))
    return (1 - a) ** (t - i).astype(float), x[i]


def ewm(x, a):
    out = np.full(len(x), np.nan)
    for t in range(len(x)):
        w, v = ewm_terms(x, a, t)
        if len(v) and w.sum() > 0:
            out[t] = (w * v).sum() / w.sum()
        elif len(v):
            out[t] = v[-1]
    return out


def ewm_var(x, a):
    out = np.full(len(x), np.nan)
    for t in range(len(x)):
        w, v = ewm_terms(x, a, t)
        if len(v) < 2:
            continue
        w = w / w.max()
        s = w.sum()
        den = s * s - (w * w).sum()
        if den <= 1e-12 * s * s:
            out[t] = np.inf  # marks: not compared
            continue
        m = (w * v).sum() / s
        out[t] = (w * (v - m) ** 2).sum() / s * s * s / den
    return out


def diff(x, k=1):
    out = np.full(len(x), np.nan)
    out[k:] = x[k:] - x[:-k] if k < len(x) else []
    return out


def alpha(span):
    return 2.0 / (span + 1.0)


def true_range(h, l, c):
    tr = np.empty(len(h))
    for t in range(len(h)):
        tr[t] = h[t] - l[t]
        if t:
            tr[t] = max(tr[t], abs(h[t] - c[t - 1]), abs(l[t] - c[t - 1]))
    return tr


# ------------------------------------------------------------------------------------------ checks
def series(case, holes=True):
    x = fl.make_data(case["spec"])["any"]
    if case.get("shift"):
        x = x + case["shift"]
    if holes and case.get("holes"):
        x = x.copy()
        r = rng(case["spec"]["seed"] + 5)
        x[r.uniform(size=len(x)) < (0.03 if case["spec"]["seed"] % 2 else 0.3)] = np.nan
    return x


def size(x):
    x = np.abs(x[np.isfinite(x)])
    return x.max() if len(x) else 1.0


def run(fn, x, params, container):
    kw = fl.given_params(params)
    s = pd.Series(x, index=pd.date_range("2001-01-01", periods=len(x))) if container == "series" else x
    return np.asarray(fn(s, **kw), dtype=float)


def simple(name, fn, ref, squared=False):
    feature = fl.BY_NAME[name]

    def test(case, ctx):
        x = series(case)
        p = fl.full_params(feature, case["params"])
        got = run(fn, x, case["params"], case["container"])
        want = ref(x, p)
        ctx.nontrivial(np.isfinite(want).any() and len(set(x[np.isfinite(x)])) > 1)
        ctx.label("missing" if np.isnan(x).any() else "complete")
        what = f"{name}({p})"
        if squared:
            ensure(not np.any(got < 0), f"{what}: negative")
            skip = np.isinf(want)
            fl.agree(np.where(skip, 0, got) ** 2, np.where(skip, 0, want), what + " squared", rtol=1e-8,
                     atol=1e-12 * size(x) ** 2)
        else:
            fl.agree(got, want, what, rtol=1e-9, atol=1e-10 * size(x))

    return test


def atr_test(case, ctx):
    d = fl.make_data(case["spec"])
    h, l, c = d["high"], d["low"], d["close"]
    if case["crossed"]:  # bars of which the previous close may lie outside, by a lot
        c = c * np.where(rng(case["spec"]["seed"]).uniform(size=len(c)) < 0.3, 1.2, 1.0)
        h = np.maximum(h, c)
    feature = fl.BY_NAME["average_true_range"]
    p = fl.full_params(feature, case["params"])
    args = [pd.Series(v) for v in (h, l, c)] if case["container"] == "series" else [h, l, c]
    got = np.asarray(ind.average_true_range(*args, **fl.given_params(case["params"])))
    want = ewm(true_range(h, l, c), 1.0 / p["window"])
    fl.agree(got, want, f"average_true_range({p})", rtol=1e-9, atol=1e-11 * size(h))
    ensure(np.all(got >= 0), "average true range below zero")
    ctx.nontrivial(len(h) > 2)


def macd_test(case, ctx):
    x = series(case)
    feature = fl.BY_NAME["macd_signal"]
    p = fl.full_params(feature, case["params"])
    line = ewm(x, alpha(p["fast"])) - ewm(x, alpha(p["slow"]))
    pm = {k: v for k, v in case["params"].items() if k != "signal"}
    fl.agree(run(ind.macd, x, pm, case["container"]), line, f"macd({p})", rtol=1e-9, atol=1e-10 * size(x))
    want = line - ewm(line, alpha(p["signal"]))
    fl.agree(run(ind.macd_signal, x, case["params"], case["container"]), want, f"macd_signal({p})", rtol=1e-9,
             atol=1e-10 * size(x))
    swapped = {**p, "fast": p["slow"], "slow": p["fast"]}
    swapped.pop("signal")
    fl.agree(run(ind.macd, x, swapped, "array"), -line, "macd with fast and slow exchanged", rtol=1e-9,
             atol=1e-10 * size(x))
    ctx.nontrivial(len(set(x[np.isfinite(x)])) > 1 and p["fast"] != p["slow"])


def mom_test(case, ctx):
    x = series(case)
    p = fl.full_params(fl.BY_NAME["ewm_mom"], case["params"])
    kw = fl.given_params(case["params"])
    mp = case["min_periods"]
    if mp is not None:
        kw["min_periods"] = mp
    s = pd.Series(x) if case["container"] == "series" else x
    got = np.asarray(ind.ewm_mom(s, **kw), dtype=float)
    d = diff(x)
    want = ewm(d, alpha(p["span"]))
    if mp:
        want[np.cumsum(~np.isnan(d)) < mp] = np.nan
    fl.agree(got, want, f"ewm_mom({p}, min_periods={mp})", rtol=1e-9, atol=1e-10 * size(x))
    ctx.nontrivial(np.isfinite(want).any())


def rsi_test(case, ctx):
    x = series(case, holes=False)
    ew = case["ewm"]
    fn = ind.ewm_rsi if ew else ind.rsi
    p = fl.full_params(fl.BY_NAME["rsi"], case["params"])
    k = p["period"]
    d = np.r_[0.0, np.diff(x)]
    up, down = np.maximum(d, 0), np.maximum(-d, 0)
    if ew:
        g, b = ewm(up, alpha(k)), ewm(down, alpha(k))
    else:
        g, b = rolling(up, k, np.mean), rolling(down, k, np.mean)
    with np.errstate(all="ignore"):
        want = 100 * g / (g + b)
        good = (g + b) > 1e-6 * size(x)
    what = f"{'ewm_' if ew else ''}rsi({p})"
    got = run(fn, x, case["params"], case["container"])
    ensure(got.shape == x.shape, f"{what}: shape {got.shape}")
    undefined = np.isnan(g)
    ensure(np.all(np.isnan(got[undefined])), f"{what}: defined before the first {k} observations")
    fl.agree(np.where(good, got, 0), np.where(good, want, 0), what, rtol=1e-7, atol=1e-7)
    ok = np.isnan(got) | ((got >= -1e-7) & (got <= 100 + 1e-7))
    ensure(np.all(ok | ~good), f"{what}: outside 0..100")
    c, m = case["add"] * max(1.0, size(x)), case["mul"]
    for label, y in (("an added constant", x + c), ("a positive factor", x * m)):
        alt = run(fn, y, case["params"], "array")
        safe = (g + b) > 1e-5 * max(size(x), abs(c))
        fl.agree(np.where(safe, alt, 0), np.where(safe, got, 0), f"{what} with {label}", rtol=1e-5, atol=1e-5)
    ctx.nontrivial(good.any())
    if good.any():
        ctx.label("both" if ((g[good] > 0) & (b[good] > 0)).any() else "one-sided")


def ref_std(x, p):
    return rolling(x, p["window"], lambda v: v.var(ddof=1)) if p["window"] > 1 else np.full(len(x), np.nan)


def common(feature, **kw):
    d = dict(
        container=st.sampled_from(["series", "array"]),
        holes=st.sampled_from([False, False, True]),
        shift=st.sampled_from([0, 0, 0, -100, 1000]),
    )
    d.update(kw)
    return fl.case_strategy(feature, min_n=1, **d)


SIMPLE = [
    ("rolling_mean", ind.rolling_mean, lambda x, p: rolling(x, p["window"], np.mean), False),
    ("rolling_std", ind.rolling_std, ref_std, True),
    ("rolling_max", ind.rolling_max, lambda x, p: rolling(x, p["window"], np.max), False),
    ("rolling_min", ind.rolling_min, lambda x, p: rolling(x, p["window"], np.min), False),
    ("rolling_mom", ind.rolling_mom, lambda x, p: diff(x, p["window"]) / p["window"], False),
    ("ewm_mean", ind.ewm_mean, lambda x, p: ewm(x, alpha(p["span"])), False),
    ("ewm_std", ind.ewm_std, lambda x, p: ewm_var(x, alpha(p["span"])), True),
]

SUBS = [
    Sub(name, common(fl.BY_NAME[name]), simple(name, fn, ref, sq), quick=250) for name, fn, ref, sq in SIMPLE
] + [
    Sub("average_true_range", common(fl.BY_NAME["average_true_range"], crossed=st.booleans()), atr_test, quick=250),
    Sub("macd", common(fl.BY_NAME["macd_signal"]), macd_test, quick=250),
    Sub("ewm_mom", common(fl.BY_NAME["ewm_mom"], min_periods=st.one_of(st.none(), st.integers(0, 12))), mom_test,
        quick=250),
    Sub(
        "rsi",
        common(
            fl.BY_NAME["rsi"],
            ewm=st.booleans(),
            add=st.floats(-2, 2).map(lambda v: round(v, 2)),
            mul=st.sampled_from([0.01, 0.5, 2.0, 3.7, 250.0, 1e-10, 1e-14, 1e12]),
        ),
        rsi_test,
        quick=400,
    ),
]
