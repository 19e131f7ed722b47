"""C17: correlation distances are exact, bounded and consistent between forms."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.distance as qd
from quantfinlib.distance.distance_matrix import corr_to_dist
from checks import featlib as fl
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import random_cor, snapshot, unchanged

PROPERTY = "C17"
RULE = "a correlation other than 0 and 1; for matrices at least one off-diagonal one; malformed matrices always"
ASSUMPTIONS = [
    "distances are compared through their squares (1e-12), since the root is unstable near 0",
    "malformed matrices deviate by more than rounding (1e-3)",
]
FORMS = {
    "angular": (qd.corr_to_angular_dist, qd.pair_angular_distance, lambda r: (1 - r) / 2),
    "abs_angular": (qd.corr_to_abs_angular_dist, qd.pair_abs_angular_distance, lambda r: 1 - np.abs(r)),
    "squared_angular": (qd.corr_to_squared_angular_dist, qd.pair_squared_angular_distance, lambda r: 1 - r * r),
}
REJECT = (AssertionError, ValueError, TypeError)
form = st.sampled_from(sorted(FORMS))


def sq_same(got, r, f, what, atol=1e-12):
    got = np.asarray(got, dtype=float)
    ensure(np.all(got >= 0) and np.all(got <= 1), f"{what}: outside [0, 1]: {got}")
    same(got**2, f(np.clip(r, -1, 1)), what + " squared", rtol=1e-10, atol=atol)


def scalar_test(case, ctx):
    fn, _, f = FORMS[case["form"]]
    r = case["r"] + case["eps"]
    for kind, v in (("float", float(r)), ("numpy", np.float64(r))):
        d = fn(v)
        ensure(np.ndim(d) == 0, f"{case['form']} of a {kind}: {type(d).__name__}")
        sq_same(d, r, f, f"{case['form']}({r!r})")
    ctx.nontrivial(r not in (0.0, 1.0))


def matrix_of(case):
    n = case["n"]
    r = rng(case["seed"])
    kind = case["kind"]
    if kind == "random":
        c = random_cor(n, case["seed"], 1.0)
    elif kind == "strong":
        z = r.standard_normal((200, 1)) * r.choice([-1.0, 1.0], n) + 0.05 * r.standard_normal((200, n))
        c = np.corrcoef(z, rowvar=False).reshape(n, n)
    elif kind == "extreme":  # +-1 and 0, some beyond by rounding
        s = r.choice([-1.0, 1.0], n)
        c = np.outer(s, s)
        c = np.where(r.uniform(size=(n, n)) < 0.2, 0.0, c)
        c = np.triu(c, 1)
        c = c + c.T
        c = c * (1 + 4e-16 * r.integers(-2, 3, (n, n)))
        c = (c + c.T) / 2
        np.fill_diagonal(c, 1.0)
    else:
        c = r.uniform(-1, 1, (n, n))
        c = np.triu(c, 1) + np.triu(c, 1).T
        np.fill_diagonal(c, 1.0)
    if case["round_diag"]:
        np.fill_diagonal(c, 1 + 2.2e-16 * r.integers(-2, 3, n))
    return c


def labels(n, kind):
    return {"str": [f"s{i}" for i in range(n)], "int": list(range(10, 10 + n)),
            "dates": list(pd.date_range("2020-01-01", periods=n)), "rev": list(range(n))[::-1]}[kind]


def matrix_test(case, ctx):
    fn, _, f = FORMS[case["form"]]
    c = matrix_of(case)
    n = len(c)
    lab = labels(n, case["labels"])
    df = pd.DataFrame(c, index=pd.Index(lab, name="row"), columns=pd.Index(lab, name="col"))
    order = np.asfortranarray(c) if case["fortran"] else c
    results = []
    inputs = [order, df]
    snaps = snapshot(*inputs)
    results.append(("array", fn(order)))
    results.append(("frame", fn(df)))
    if n > 1:
        results.append(("corr_to_dist", corr_to_dist(order, corr_to_dist_method=case["form"])))
        results.append(("corr_to_dist frame", corr_to_dist(df, case["form"])))
        if case["form"] == "angular":
            results.append(("default", corr_to_dist(order)))
    unchanged(inputs, snaps, case["form"])
    for kind, d in results:
        what = f"{case['form']} of {kind} {n}x{n}"
        if "frame" in kind:
            ensure(isinstance(d, pd.DataFrame), f"{what}: {type(d).__name__}")
            ensure(list(d.index) == lab and list(d.columns) == lab, f"{what}: labels lost")
            ensure(d.index.name == "row" and d.columns.name == "col", f"{what}: names of the labels lost")
        else:
            ensure(isinstance(d, np.ndarray), f"{what}: {type(d).__name__}")
        v = np.asarray(d, dtype=float)
        ensure(v.shape == (n, n), f"{what}: shape {v.shape}")
        ensure(np.all(np.diag(v) == 0), f"{what}: diagonal not zero")
        off = ~np.eye(n, dtype=bool)
        sq_same(v[off], c[off], f, what)
    # scalars agree with matrices
    if n > 1:
        i, j = case["i"] % n, case["j"] % n
        if i != j:
            same(np.asarray(results[0][1])[i, j] ** 2, fn(float(c[i, j])) ** 2, "matrix entry against scalar")
    ctx.nontrivial(n > 1)
    ctx.label(case["kind"])


def malformed_test(case, ctx):
    fn = FORMS[case["form"]][0]
    n = max(2, case["n"])
    c = random_cor(n, case["seed"])
    r = rng(case["seed"] + 1)
    i, j = case["i"] % n, case["j"] % n
    if i == j:
        j = (i + 1) % n
    bad = case["bad"]
    if bad == "asymmetric":
        c[i, j] += case["by"] * (1 if c[i, j] < 0 else -1)
    elif bad == "diagonal":
        c[i, i] += case["by"] * case["sign"]
    elif bad == "nonsquare":
        c = c[:, :-1] if n > 2 else np.column_stack([c, c[:, :1]])
    elif bad == "tall":
        c = np.vstack([c, c[:1]])
    elif bad == "vector":
        c = c[0]
    elif bad == "cube":
        c = np.stack([c, c])
    elif bad == "nan":
        c[i, j] = c[j, i] = np.nan
    x = c
    if case["frame"] and c.ndim == 2:
        x = pd.DataFrame(c)
    rejects(lambda: fn(x), REJECT, f"{case['form']}: {bad} matrix")
    if c.ndim == 2:
        rejects(lambda: corr_to_dist(x, corr_to_dist_method=case["form"]), REJECT, f"corr_to_dist: {bad} matrix")
    ctx.nontrivial()
    ctx.label(bad)


def pair_test(case, ctx):
    _, pair, f = FORMS[case["form"]]
    r = rng(case["seed"])
    n = case["n"]
    x = r.standard_normal(n)
    y = case["rho"] * x + np.sqrt(1 - case["rho"] ** 2) * r.standard_normal(n)
    if case["ties"]:
        x, y = np.round(2 * x), np.round(2 * y)
    if np.ptp(x) == 0 or np.ptp(y) == 0:
        return
    big = case["offset"]
    x, y = x + big, y - big / 3
    xc, yc = x - x.mean(), y - y.mean()
    xc, yc = xc - xc.mean(), yc - yc.mean()
    noise = big * 1e-15  # rounding of the scaled vectors
    cor = (xc * yc).sum() / np.sqrt((xc**2).sum() * (yc**2).sum())
    if case["series"]:
        x, y = pd.Series(x), pd.Series(y)
    snaps = snapshot(x, y)
    d = pair(x, y)
    unchanged([x, y], snaps, "pair distance")
    ensure(np.ndim(d) == 0, f"pair {case['form']}: {type(d).__name__}")
    sq_same(d, cor, f, f"pair {case['form']}", atol=1e-11)
    same(float(pair(y, x)) ** 2, float(d) ** 2, "exchanged vectors", atol=1e-11)
    same(float(pair(x, x)) ** 2, 0.0, "vector with itself", atol=1e-11)
    a = case["a"]
    same(float(pair(x * a + case["b"], y)) ** 2, float(d) ** 2, f"x times {a} plus {case['b']}", atol=1e-9 + noise)
    if case["form"] != "angular":
        same(float(pair(x, -a * y)) ** 2, float(d) ** 2, f"y times {-a}", atol=1e-9 + noise)
    else:
        same(float(pair(x, -a * y)) ** 2, 1 - float(d) ** 2, f"y times {-a}", atol=1e-9 + noise)
    ctx.nontrivial(abs(cor) < 0.999999)


mat = {
    "form": form,
    "n": st.integers(1, 8),
    "seed": seeds(),
    "i": st.integers(0, 7),
    "j": st.integers(0, 7),
}
SUBS = [
    Sub(
        "scalar",
        st.fixed_dictionaries(
            {
                "form": form,
                "r": st.one_of(st.floats(-1, 1), st.sampled_from([-1.0, 0.0, 1.0, 0.5, -0.5])),
                "eps": st.sampled_from([0.0, 0.0, 2.3e-16, -2.3e-16, 1e-15]),
            }
        ),
        scalar_test,
        quick=600,
    ),
    Sub(
        "matrix",
        st.fixed_dictionaries(
            {
                **mat,
                "n": st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 40)),
                "kind": st.sampled_from(["random", "strong", "extreme", "any"]),
                "round_diag": st.booleans(),
                "fortran": st.booleans(),
                "labels": st.sampled_from(["str", "int", "dates", "rev"]),
            }
        ),
        matrix_test,
        quick=600,
    ),
    Sub(
        "malformed",
        st.fixed_dictionaries(
            {
                **mat,
                "bad": st.sampled_from(["asymmetric", "diagonal", "nonsquare", "tall", "vector", "cube", "nan"]),
                "by": st.floats(1e-3, 0.5),
                "sign": st.sampled_from([-1, 1]),
                "frame": st.booleans(),
            }
        ),
        malformed_test,
        quick=500,
    ),
    Sub(
        "pair",
        st.fixed_dictionaries(
            {
                "form": form,
                "n": st.integers(3, 200),
                "seed": seeds(),
                "rho": st.one_of(st.floats(-1, 1), st.sampled_from([-1.0, 1.0, 0.0])),
                "ties": st.booleans(),
                "series": st.booleans(),
                "a": st.sampled_from([0.1, 1.0, 3.0, 100.0]),
                "b": st.sampled_from([0.0, -5.0, 40.0]),
                "offset": st.sampled_from([0.0, 0.0, 100.0, 1e6, 1e8]),
            }
        ),
        pair_test,
        quick=600,
    ),
]
