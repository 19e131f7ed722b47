"""C20: distance matrices agree with the pairwise measures for every pair of columns."""

import logging

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.distance as qd
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import make_index, snapshot, unchanged

PROPERTY = "C20"
RULE = "at least three columns (two for malformed calls), none of them constant"
ASSUMPTIONS = [
    "columns vary; entries are compared to 1e-9 (correlation distances through their squares)",
    "information matrices with data-driven bins are compared with the pairwise function on the same two columns",
]
REJECT = (AssertionError, ValueError)
PAIR = {
    "angular": (qd.pair_angular_distance, qd.corr_to_angular_dist),
    "abs_angular": (qd.pair_abs_angular_distance, qd.corr_to_abs_angular_dist),
    "squared_angular": (qd.pair_squared_angular_distance, qd.corr_to_squared_angular_dist),
}
logging.getLogger("quantfinlib").setLevel(logging.CRITICAL)


def table(case):
    r = rng(case["seed"])
    n, m = case["n"], case["m"]
    kind = case["kind"]
    if kind == "factor":
        X = r.standard_normal((n, 1)) * r.uniform(-1, 1, m) + 0.5 * r.standard_normal((n, m))
    elif kind == "blocks":
        f = r.standard_normal((n, 2))
        X = f[:, r.integers(0, 2, m)] + 0.2 * r.standard_normal((n, m))
    elif kind == "ties":
        X = r.integers(0, 6, (n, m)).astype(float) + 0.001 * np.arange(m)
    elif kind == "counts":
        X = r.integers(-300, 5000, (n, 1)) * r.integers(-1, 2, m) + r.integers(-300, 5000, (n, m))
        return X.astype(np.int16 if m % 2 else np.int64)
    elif kind == "copies":
        X = r.standard_normal((n, m))
        X[:, m - 1] = -2 * X[:, 0] + 1
        if m > 3:
            X[:, 1] = X[:, 2]
    else:
        X = np.exp(r.standard_normal((n, m)))
    return X * np.exp(r.uniform(-2, 2, m))


def names(case):
    m = case["m"]
    return {"str": [f"c{i}" for i in range(m)], "rev": list(range(m))[::-1], "mixed": [i if i % 2 else f"x{i}" for i in range(m)],
            "dups": [f"c{i // 2}" for i in range(m)]}[
        case["names"]
    ]


def usable(X):
    return np.all(np.ptp(X, axis=0) > 0)


def ranks(x):
    """Average ranks."""
    return np.array([(x < v).sum() + ((x == v).sum() + 1) / 2 for v in x])


def frame(X, case):
    return pd.DataFrame(X, index=make_index(case["index"], len(X), 2), columns=names(case))


def structure(res, case, what, as_frame):
    m = case["m"]
    if as_frame:
        ensure(isinstance(res, pd.DataFrame), f"{what}: {type(res).__name__} for a frame")
        ensure(list(res.index) == names(case) and list(res.columns) == names(case), f"{what}: labels {list(res.columns)}")
    else:
        ensure(isinstance(res, np.ndarray), f"{what}: {type(res).__name__} for an array")
    v = np.asarray(res, dtype=float)
    ensure(v.shape == (m, m), f"{what}: shape {v.shape} for {m} columns")
    return v


def corr_test(case, ctx):
    X = table(case)
    if not usable(X):
        return
    m = case["m"]
    kw = {}
    if case["corr_method"]:
        kw["corr_method"] = case["corr_method"]
    if case["dist_method"]:
        kw["corr_to_dist_method"] = case["dist_method"]
    seen = []
    lam = case["shrink"]
    if lam is not None:
        def shrink(c):
            seen.append(c)
            return c * (1 - lam) + lam * np.eye(len(c))
        kw["corr_transformer"] = shrink
    df = frame(X, case)
    obj = df if case["frame"] else X
    snaps = snapshot(obj)
    res = qd.get_corr_distance_matrix(obj, **kw)
    unchanged([obj], snaps, "correlation distance matrix")
    what = f"corr distances ({kw.get('corr_method')}, {kw.get('corr_to_dist_method')}, shrink {lam})"
    v = structure(res, case, what, case["frame"])
    ensure(np.all(np.diag(v) == 0), f"{what}: diagonal not zero")
    ensure(np.allclose(v, v.T, atol=1e-12), f"{what}: not symmetric")
    pair, conv = PAIR[case["dist_method"] or "angular"]
    Z = np.column_stack([ranks(c) for c in X.T]) if case["corr_method"] == "spearman" else X
    for i in range(m):
        for j in range(m):
            if i == j:
                continue
            if lam is None:
                want = float(pair(Z[:, i], Z[:, j]))
            else:
                want = float(conv(float(np.corrcoef(Z[:, i], Z[:, j])[0, 1]) * (1 - lam)))
            same(v[i, j] ** 2, want**2, f"{what} entry {i},{j} squared", rtol=1e-9, atol=1e-10)
    if lam is not None:
        ensure(len(seen) == 1, f"{what}: transformer called {len(seen)} times")
    perm = rng(case["seed"] + 1).permutation(m)
    alt = np.asarray(qd.get_corr_distance_matrix(X[:, perm], **kw))
    same(alt**2, v[np.ix_(perm, perm)] ** 2, f"{what} with permuted columns", atol=1e-10)
    if m > 2:
        sub = np.asarray(qd.get_corr_distance_matrix(X[:, :-1], **kw))
        same(sub**2, v[:-1, :-1] ** 2, f"{what} without the last column", atol=1e-10)
    other = np.asarray(qd.get_corr_distance_matrix(X if case["frame"] else df, **kw), dtype=float)
    same(other**2, v**2, f"{what}: array against frame", atol=1e-10)
    ctx.nontrivial(m > 2)
    ctx.label(case["corr_method"] or "default", case["dist_method"] or "default", "shrunk" if lam else "plain")


def info_test(case, ctx):
    X = table(case)
    if not usable(X):
        return
    m = case["m"]
    kw, opt = {}, {}
    if case["method"]:
        kw["method"] = case["method"]
    if case["bins"]:
        opt["bins"] = case["bins"]
    if case["norm"] is not None:
        opt["norm"] = case["norm"]
    mi = case["method"] == "mutual_info"
    pair = qd.mutual_info if mi else qd.var_info
    df = frame(X, case)
    obj = df if case["frame"] else X
    snaps = snapshot(obj)
    res = qd.get_info_distance_matrix(obj, **kw, **opt)
    unchanged([obj], snaps, "information distance matrix")
    what = f"{'mutual' if mi else 'variation of'} information matrix {opt}"
    v = structure(res, case, what, case["frame"])
    for i in range(m):
        for j in range(m):
            if i != j:
                # the entry may be computed in either order of the two columns
                a = float(pair(np.ascontiguousarray(X[:, i]), np.ascontiguousarray(X[:, j]), **opt))
                if not np.isclose(v[i, j], a, rtol=1e-9, atol=1e-9):
                    a = float(pair(X[:, j], X[:, i], **opt))
                same(v[i, j], a, f"{what} entry {i},{j}", atol=1e-9)
    ensure(np.allclose(v, v.T, atol=1e-12), f"{what}: not symmetric")
    if not mi:
        same(np.diag(v), np.zeros(m), f"{what} diagonal", atol=1e-12)
    elif case["norm"] in (None, True):
        same(np.diag(v), np.ones(m), f"{what} diagonal", atol=1e-9)
    else:
        own = [float(qd.mutual_info(X[:, i], X[:, i], **opt)) for i in range(m)]
        same(np.diag(v), own, f"{what} diagonal", atol=1e-9)
        if case["bins"]:
            ent = [float(qd.compute_entropies(X[:, i], X[:, i], case["bins"])[0]) for i in range(m)]
            same(np.diag(v), ent, f"{what} diagonal against entropies", atol=1e-9)
    perm = rng(case["seed"] + 1).permutation(m)
    alt = np.asarray(qd.get_info_distance_matrix(X[:, perm], **kw, **opt))
    same(alt, v[np.ix_(perm, perm)], f"{what} with permuted columns", atol=1e-8)
    if m > 2:
        sub = np.asarray(qd.get_info_distance_matrix(X[:, 1:], **kw, **opt))
        same(sub, v[1:, 1:], f"{what} without the first column", atol=1e-8)
    other = np.asarray(qd.get_info_distance_matrix(X if case["frame"] else df, **kw, **opt), dtype=float)
    same(other, v, f"{what}: array against frame", atol=1e-9)
    ctx.nontrivial(m > 2)
    ctx.label(case["method"] or "default", "bins" if case["bins"] else "optimal bins")


def missing_test(case, ctx):
    """Missing observations are left out pair by pair; min_periods goes to the correlation."""
    X = table({**case, "kind": "other" if case["corr_method"] == "spearman" else case["kind"]}).astype(float)
    r = rng(case["seed"] + 2)
    n, m = X.shape
    if case["empty"]:
        X[:, r.integers(0, m)] = np.nan
    X[r.uniform(size=X.shape) < case["share"]] = np.nan
    kw = {}
    if case["corr_method"]:
        kw["corr_method"] = case["corr_method"]
    if case["dist_method"]:
        kw["corr_to_dist_method"] = case["dist_method"]
    if case["least"] is not None:
        kw["min_periods"] = case["least"]
    pair, conv = PAIR[case["dist_method"] or "angular"]
    df = frame(X, case)
    obj = df if case["frame"] else X
    snaps = snapshot(obj)
    undefined = False
    for i in range(m):
        for j in range(i + 1):
            both = ~np.isnan(X[:, i]) & ~np.isnan(X[:, j])
            undefined |= both.sum() < max(case["least"] or 1, 3) or np.ptp(X[both, i]) == 0 or np.ptp(X[both, j]) == 0
    try:
        res = qd.get_corr_distance_matrix(obj, **kw)
    except REJECT:
        ensure(undefined, f"data with missing values {kw} rejected although every correlation is defined")
        ctx.nontrivial()
        ctx.label("rejected")
        return
    v = structure(res, case, "corr distances", case["frame"])
    unchanged([obj], snaps, "correlation distance matrix")
    what = f"corr distances with missing data {kw}"
    seen = 0
    for i in range(m):
        for j in range(i):
            both = ~np.isnan(X[:, i]) & ~np.isnan(X[:, j])
            a, b = X[both, i], X[both, j]
            if both.sum() < (case["least"] or 1):
                ensure(np.isnan(v[i, j]) and np.isnan(v[j, i]), f"{what}: {v[i, j]} from {both.sum()} common rows")
                seen += 1
                continue
            if len(a) < 3 or np.ptp(a) == 0 or np.ptp(b) == 0:
                continue
            if case["corr_method"] == "spearman":
                a, b = ranks(a), ranks(b)
            want = float(conv(float(np.corrcoef(a, b)[0, 1])))
            same(v[i, j] ** 2, want**2, f"{what} entry {i},{j} squared", rtol=1e-9, atol=1e-10)
            same(v[j, i] ** 2, want**2, f"{what} entry {j},{i} squared", rtol=1e-9, atol=1e-10)
            seen += 1
    ctx.nontrivial(seen > 1 and m > 2)
    ctx.label("min_periods" if case["least"] else "default")


def malformed_test(case, ctx):
    X = table({**case, "n": 12, "m": 3, "kind": "factor"})
    bad = case["bad"]
    X, kw = {
        "one column": (X[:, :1], {}),
        "vector": (X[:, 0], {}),
        "list": (X.tolist(), {}),
        "series": (pd.Series(X[:, 0]), {}),
        "cube": (np.stack([X, X]), {}),
        "one column frame": (pd.DataFrame(X[:, :1]), {}),
        "method": (X, {"m": case["name"]}),
        "dist method": (X, {"d": case["name"]}),
    }[bad]
    if case["info"] and bad != "dist method":
        kw = {"method": kw["m"]} if kw else {"method": case["method"] or "var_info"}
        rejects(lambda: qd.get_info_distance_matrix(X, **kw), REJECT, f"information matrix of {bad} {kw}")
    else:
        kw = {"corr_method": kw["m"]} if "m" in kw else ({"corr_to_dist_method": kw["d"]} if "d" in kw else {})
        rejects(lambda: qd.get_corr_distance_matrix(X, **kw), REJECT, f"correlation matrix of {bad} {kw}")
    ctx.nontrivial()
    ctx.label(bad)


base = {
    "n": st.one_of(st.integers(4, 30), st.integers(20, 120)),
    "m": st.one_of(st.integers(2, 6), st.integers(2, 6), st.integers(7, 14)),
    "seed": seeds(),
    "kind": st.sampled_from(["factor", "blocks", "ties", "copies", "other", "counts"]),
    "names": st.sampled_from(["str", "rev", "mixed", "dups"]),
    "index": st.sampled_from(["range", "dates", "dups", "shuffled", "strings"]),
    "frame": st.booleans(),
}
SUBS = [
    Sub(
        "correlation",
        st.fixed_dictionaries(
            {
                **base,
                "corr_method": st.sampled_from([None, "pearson", "spearman"]),
                "dist_method": st.sampled_from([None, "angular", "abs_angular", "squared_angular"]),
                "shrink": st.sampled_from([None, None, 0.1, 0.5, 1.0]),
            }
        ),
        corr_test,
        quick=400,
    ),
    Sub(
        "information",
        st.fixed_dictionaries(
            {
                **base,
                "method": st.sampled_from([None, "var_info", "mutual_info", "mutual_info"]),
                "bins": st.one_of(st.none(), st.integers(2, 12)),
                "norm": st.sampled_from([None, True, False]),
            }
        ),
        info_test,
        quick=220,
    ),
    Sub(
        "missing",
        st.fixed_dictionaries(
            {
                **base,
                "empty": st.sampled_from([False] * 7 + [True]),
                "share": st.sampled_from([0.05, 0.2, 0.5]),
                "least": st.one_of(st.none(), st.integers(1, 20)),
                "corr_method": st.sampled_from([None, "pearson", "spearman"]),
                "dist_method": st.sampled_from([None, "angular", "abs_angular", "squared_angular"]),
            }
        ),
        missing_test,
        quick=300,
    ),
    Sub(
        "malformed",
        st.fixed_dictionaries(
            {
                "seed": seeds(),
                "bad": st.sampled_from(
                    ["one column", "vector", "list", "series", "cube", "one column frame", "method", "dist method"]
                ),
                "name": st.sampled_from(["kendall", "Pearson", "", "angular ", "mi", "var_information", "euclid", "cosine"]),
                "method": st.sampled_from([None, "var_info", "mutual_info"]),
                "info": st.booleans(),
            }
        ),
        malformed_test,
        quick=200,
    ),
]
