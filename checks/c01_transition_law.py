"""C01: simulated paths follow the exact transition law of the model."""

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from checks.simlib import build, model_spec, params, reference_noise, reference_path
from pbt.core import Sub, ensure, rng, same, seeds, violate
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom

PROPERTY = "C01"
RULE = (
    "Generated models (type, 1-11 variates, parameters as scalar/list/array, optional correlation matrix, zero "
    "volatilities), dt, steps, paths, x0 and seed; non-trivial when there are at least two steps and either several "
    "variates or paths, or a non-zero drift/mean."
)
ASSUMPTIONS = [
    "drift/mean have one entry per variate, mrr and vol one each or one for all; mrr > 0; the correlation matrix is positive definite",
    "numpy's Cholesky factor is the square root of the correlation matrix",
]


def close(actual, expected, scale, what):
    same(actual, expected, what, rtol=1e-7, atol=1e-9 * scale)


path_case = st.fixed_dictionaries(
    {
        "spec": model_spec(wide=True),
        "steps": st.one_of(st.integers(1, 12), st.sampled_from([25, 60, 130, 600])),
        "paths": st.one_of(st.integers(1, 5), st.sampled_from([9, 20, 70])),
        "dt": st.sampled_from([1.0, 0.5, 0.25, 1 / 12, 1 / 52, 1 / 252, 1e-3, 1, 0.2, 1e-6, 20.0]),
        "x0": st.sampled_from(["scalar", "int", "list", "array", "col", "int8", "uint16", "int64"]),
        "seed": seeds(),
    }
)


def start_value(case, n):
    r = rng(case["seed"] + 11)
    positive = case["spec"]["model"] == "gbm"
    base = np.abs(r.normal(50, 30, n)) + 1 if positive else r.normal(0, 3, n)
    kind = case["x0"]
    if kind == "int":
        return int(abs(base[0])) + 1, np.full(n, int(abs(base[0])) + 1.0)
    if kind == "scalar":
        return float(base[0]), np.full(n, base[0])
    if kind == "list":
        return [float(b) for b in base], base
    if kind in ("int8", "uint16", "int64"):
        base = np.clip(np.round(np.abs(base)) + 1, 1, 120)
        return base.astype(kind), base
    if kind == "col":
        return base.reshape(-1, 1).copy(), base
    return base.copy(), base


def test_path(case, ctx):
    spec = case["spec"]
    n, paths, steps = spec["variates"], case["paths"], case["steps"]
    p, cor = params(spec)
    model = build(spec)
    arg, x0 = start_value(case, n)
    if spec["model"] == "gbm":  # stay within the range of floating point numbers
        case = dict(case, dt=min(case["dt"], 20 / steps))
    got = model.path_sample(x0=arg, dt=case["dt"], num_steps=steps, num_paths=paths, random_state=case["seed"])
    noise = reference_noise(n, steps, paths, case["seed"])
    ensure(noise.shape == (steps, n * paths), "shape of the path")
    # shocks are not shared between steps, paths or variates
    a = np.sort(np.abs(noise).ravel())
    ensure(np.sum(np.diff(a) <= 1e-13) <= 1, "the same shock is used more than once")
    want = reference_path(spec["model"], p, cor, noise, x0, case["dt"], n, paths)
    ctx.nontrivial(steps >= 2 and (n * paths > 1 or np.any(np.concatenate([v for k, v in p.items() if k != "vol"]))))
    ctx.label(spec["model"], "correlated" if cor is not None else "independent")
    got = np.asarray(got)
    same(got[0], np.tile(x0, paths), "first row", rtol=1e-12)
    if spec["model"] == "gbm":
        ensure(np.all(got > 0), "a geometric Brownian path is not positive")
        ensure(got.shape == want.shape, f"shape {got.shape}, expected {want.shape}")
        scale = 1 + np.max(np.abs(np.log(want)))
        close(np.log(got), np.log(want), scale, "log path")
    else:
        close(got, want, 1 + np.max(np.abs(want)), "path")


det_case = st.fixed_dictionaries(
    {
        "spec": model_spec(3),
        "steps": st.integers(1, 40),
        "paths": st.integers(1, 4),
        "dt": st.sampled_from([1.0, 0.1, 1 / 252]),
        "seed": seeds(),
    }
)


def test_deterministic(case, ctx):
    spec = dict(case["spec"], cor=False)
    n, paths = spec["variates"], case["paths"]
    p, _ = params(spec)
    p["vol"] = np.zeros(n)
    r = rng(case["seed"])
    x0 = np.abs(r.normal(5, 2, n)) + 0.5
    kind = spec["model"]
    cls = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}[kind]
    model = cls(**{k: v.copy() for k, v in p.items()})
    got = np.asarray(
        model.path_sample(x0=x0, dt=case["dt"], num_steps=case["steps"], num_paths=paths, random_state=case["seed"])
    )
    t = np.arange(case["steps"] + 1)[:, None] * case["dt"]
    if kind == "bm":
        want = x0 + p["drift"] * t
    elif kind == "gbm":
        want = x0 * np.exp(p["drift"] * t)
    else:
        want = p["mean"] + (x0 - p["mean"]) * np.exp(-p["mrr"] * t)
    ctx.nontrivial(case["steps"] > 1)
    want = np.tile(want, (1, paths))
    tight = 1e-8 if kind == "gbm" else 1e-12
    same(got, want, "path without volatility", rtol=tight, atol=tight * (1 + np.max(np.abs(want))) if kind != "gbm" else 1e-9)


stat_case = st.fixed_dictionaries(
    {
        "layout": st.sampled_from([[1500, 1, 20], [400, 3, 25], [2500, 2, 6], [60, 4, 120], [6000, 1, 5], [25, 1, 1200]]),
        "model": st.sampled_from(["bm", "gbm", "ou"]),
        "cor": st.booleans(),
        "seed": seeds(),
    }
)


def two_sided(p):
    return 2 * min(p, 1 - p)


def test_shocks(case, ctx):
    """Recover the shocks from long simulations and test that they are independent standard normals."""
    steps, n, paths = case["layout"]
    spec = {"model": case["model"], "variates": n, "cor": case["cor"] and n > 1, "pseed": case["seed"], "form": "array"}
    p, cor = params(spec)
    p["vol"] = np.clip(p["vol"], 0.1, 0.4)
    kw = {k: v.copy() for k, v in p.items()}
    if cor is not None:
        kw["cor"] = cor
    cls = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}[case["model"]]
    dt = 1 / 252
    x = np.asarray(cls(**kw).path_sample(x0=1.0, dt=dt, num_steps=steps, num_paths=paths, random_state=case["seed"]))
    x = x.reshape(steps + 1, paths, n)
    v = p["vol"]
    if case["model"] == "bm":
        e = (np.diff(x, axis=0) - p["drift"] * dt) / (v * dt**0.5)
    elif case["model"] == "gbm":
        e = (np.diff(np.log(x), axis=0) - (p["drift"] - v * v / 2) * dt) / (v * dt**0.5)
    else:
        a = np.exp(-p["mrr"] * dt)
        s = v * np.sqrt(-np.expm1(-2 * p["mrr"] * dt) / (2 * p["mrr"]))
        e = (x[1:] - p["mean"] - (x[:-1] - p["mean"]) * a) / s
    ctx.nontrivial()
    ctx.label(case["model"], "correlated" if cor is not None else "independent")
    limit = 1e-12
    N = steps * paths

    def corr_test(c, m, what, rho=0.0):
        # Fisher transformation; |z| < 7.5 has a false-alarm probability below 1e-12
        z = (np.arctanh(c) - np.arctanh(rho)) * np.sqrt(m - 3)
        ensure(abs(z) < 7.5, f"{what}: correlation {c:.4f}, expected {rho:.4f} ({m} pairs)")

    for i in range(n):
        ei = e[:, :, i].ravel()
        ensure(two_sided(stats.norm.cdf(ei.mean() * np.sqrt(N))) > limit, f"mean of the shocks {ei.mean():.4f}")
        ensure(two_sided(stats.chi2.cdf((ei**2).sum(), N)) > limit, f"variance of the shocks {ei.var():.4f}")
        ensure(stats.kstest(ei, "norm").pvalue > limit, "the shocks are not normal")
        corr_test(np.corrcoef(e[1:, :, i].ravel(), e[:-1, :, i].ravel())[0, 1], N - paths, "shocks of successive steps")
        if paths > 1:
            corr_test(np.corrcoef(e[:, 1:, i].ravel(), e[:, :-1, i].ravel())[0, 1], N - steps, "shocks of two paths")
            same_path = np.sum(np.abs(e[:, 1:, i] - e[:, :1, i]) < 1e-9)
            ensure(same_path < 5, "two paths share their shocks")
        for j in range(i + 1, n):
            rho = 0.0 if cor is None else cor[i, j]
            corr_test(np.corrcoef(ei, e[:, :, j].ravel())[0, 1], N, "shocks of two variates", rho)
            # different paths are independent whatever the correlation of the variates
            if paths > 1:
                corr_test(np.corrcoef(e[:, 1:, i].ravel(), e[:, :-1, j].ravel())[0, 1], N - steps, "variates of two paths")
    # uniform over time: variance in four quarters of the path
    if steps >= 40:
        for q in np.array_split(np.arange(steps), 4):
            s = (e[q][:, :, 0] ** 2).sum()
            ensure(two_sided(stats.chi2.cdf(s, len(q) * paths)) > limit, "variance of the shocks changes over the path")


# ---------------------------------------------------------------------------------------------- quasi-random model
def ind_diff(x):
    return np.tanh(np.diff(x, prepend=np.nan))


def ind_level(x):
    return (x - np.mean(x[:3])) / (1 + np.abs(x))


def ind_sma(x):
    c = np.cumsum(x)
    out = np.full(len(x), np.nan)
    w = 3
    out[w - 1 :] = (c[w - 1 :] - np.concatenate([[0.0], c[:-w]])) / w - x[w - 1 :]
    return out


def ind_sign(x):
    d = np.diff(x, prepend=x[0] - 1)
    return np.sign(d) + 0.1 * np.arange(len(x)) % 0.7


INDICATORS = {"diff": ind_diff, "level": ind_level, "sma": ind_sma, "sign": ind_sign}

quasi_case = st.fixed_dictionaries(
    {
        "base": st.sampled_from(["default", "bm", "gbm", "ou"]),
        "spec": model_spec(3),
        "ind": st.sampled_from(sorted(INDICATORS)),
        "f": st.sampled_from([0.1, 0.0, 1.0, 0.37, 5.0]),
        "steps": st.integers(4, 60),
        "paths": st.integers(1, 4),
        "dt": st.sampled_from([1.0, 0.1, 1 / 252]),
        "seed": seeds(),
    }
)


def test_quasi(case, ctx):
    spec = dict(case["spec"], model="bm" if case["base"] == "default" else case["base"], zero_vol=False)
    n = 1 if case["base"] == "default" else spec["variates"]
    paths, steps, dt = case["paths"], case["steps"], case["dt"]
    func = INDICATORS[case["ind"]]
    seen = []

    def recording(x):
        seen.append(np.shape(x))
        return func(np.asarray(x))

    if case["base"] == "default":
        model = QuasiRandom(recording, f_signal_vol=case["f"])
        base, vol = BrownianMotion(), np.array([0.1])
    else:
        base = build(spec)
        vol = params(spec)[0]["vol"]
        model = QuasiRandom(recording, f_signal_vol=case["f"], base_model=base)
    kw = dict(x0=1.5, dt=dt, num_steps=steps, num_paths=paths, random_state=case["seed"])
    got = np.asarray(model.path_sample(**kw))
    plain = np.asarray(base.path_sample(**kw))
    ensure(got.shape == plain.shape, f"shape {got.shape}, expected {plain.shape}")
    ensure(all(len(s) == 1 for s in seen), "the indicator must be called with 1d prices")
    vols = np.tile(vol, paths)
    for c in range(n * paths):
        raw = np.nan_to_num(func(plain[:-1, c]))
        lagged = np.concatenate([[0.0], raw])
        sd = np.std(lagged[1:-1], ddof=2)
        if not sd > 1e-6:
            continue
        ctx.nontrivial(case["f"] > 0)
        signal = lagged * case["f"] * vols[c] * np.sqrt(dt) / sd
        want = plain[:, c] + np.cumsum(signal)
        scale = 1 + np.max(np.abs(want)) + np.max(np.abs(lagged)) / sd
        close(got[:, c], want, scale, f"column {c} of the quasi-random path")
    ctx.label(case["base"])


SUBS = [
    Sub("path", path_case, test_path, quick=900),
    Sub("deterministic", det_case, test_deterministic, quick=200),
    Sub("shocks", stat_case, test_shocks, quick=60),
    Sub("quasi", quasi_case, test_quasi, quick=300),
]
