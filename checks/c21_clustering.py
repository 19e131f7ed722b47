"""C21: hierarchical clustering yields exactly k nested clusters of the items."""

import logging

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.cluster import hierarchy
from scipy.spatial.distance import squareform

from checks import clusterlib as cl
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import random_cor, snapshot, unchanged
from quantfinlib.clustering import HC
from quantfinlib.distance import get_corr_distance_matrix, get_info_distance_matrix

PROPERTY = "C21"
RULE = "at least four items; the comparison with brute force also needs merges without ties (gap above 1e-9)"
ASSUMPTIONS = [
    "partitions are compared with brute-force agglomeration (Lance-Williams) when no merge is tied",
    "2 <= n items; 1 <= k <= n",
]
logging.getLogger("quantfinlib").setLevel(logging.CRITICAL)


def get(hc, k, n, what):
    lab = hc.get_clusters(k)
    lab = np.asarray(lab).copy()
    ensure(lab.shape == (n,), f"{what}: labels of shape {lab.shape} for {n} items")
    ensure(len(np.unique(lab)) == k, f"{what}: {len(np.unique(lab))} clusters, asked for {k}")
    return lab


def check_tree(hc, dist, method, ks, what, ctx):
    """All claims about the clustering of a distance matrix, querying in the given order."""
    n = len(dist)
    first = {}
    for k in ks:
        lab = get(hc, k, n, what)
        if k in first:
            ensure(np.array_equal(lab, first[k]), f"{what}: another answer for k={k} the second time")
        first.setdefault(k, lab)
    parts = {k: cl.partition(get(hc, k, n, what)) for k in range(1, n + 1)}
    # the labels belong to the caller: writing on them changes no later answer
    for k in list(first)[:2]:
        mine = hc.get_clusters(k)
        if isinstance(mine, np.ndarray) and mine.flags.writeable:
            mine[:] = -1
            ensure(np.array_equal(get(hc, k, n, what), first[k]), f"{what}: writing on the labels for k={k} changes the next answer")
    for k, lab in first.items():
        ensure(cl.partition(lab) == parts[k], f"{what}: k={k} depends on the order of queries")
    for k in range(1, n):
        ensure(cl.refines(parts[k + 1], parts[k]), f"{what}: clusters for {k + 1} do not refine those for {k}")
    ref, heights, margin = cl.agglomerate(dist, method)
    Z = np.asarray(hc.linkage)
    ensure(Z.shape == (n - 1, 4), f"{what}: linkage of shape {Z.shape}")
    if margin > 1e-9:
        for k in range(1, n + 1):
            ensure(parts[k] == ref[k], f"{what}: k={k} gives {sorted(map(sorted, parts[k]))}, expected {sorted(map(sorted, ref[k]))}")
        if method in cl.MONOTONE:
            same(np.sort(Z[:, 2]), np.sort(heights), f"{what} merge heights", rtol=1e-7, atol=1e-9 * heights.max())
        ctx.label("brute force")
    ctx.label(method)
    return parts, margin


def check_order(HC, hc, dist, kw, what):
    """Leaves are in scipy's optimal order by default, in the order of the merges when switched off."""
    plain = np.asarray(HC(dist=dist, **{**kw, "optimal_ordering": False}).linkage)
    want = hierarchy.optimal_leaf_ordering(plain, squareform(np.asarray(dist, dtype=float), checks=False))
    same(np.asarray(hc.linkage), want, f"{what}: optimal order of the leaves", rtol=1e-9, atol=1e-12 * np.max(np.asarray(dist)))


def dist_test(case, ctx):
    n, method = case["n"], case["method"]
    dist = cl.random_dist(n, case["seed"], case["kind"])
    lab = [f"a{i}" for i in range(n)]
    obj = pd.DataFrame(dist, index=lab, columns=lab) if case["frame"] else dist
    snaps = snapshot(obj)
    kw = {} if method is None else {"linkage_method": method}
    if case["ordering"] is not None:
        kw["optimal_ordering"] = case["ordering"]
    if case["codep"]:
        kw["codependence_method"] = case["codep"]
    hc = HC(dist=obj, **kw)
    what = f"HC(dist {n}x{n} {case['kind']}, {method})"
    ks = [1 + k % n for k in case["ks"]]
    parts, margin = check_tree(hc, dist, method or "ward", ks, what, ctx)
    unchanged([obj], snaps, what)
    if case["ordering"] is not False and n >= 3:
        check_order(HC, hc, dist, kw, what)
    perm = rng(case["seed"] + 1).permutation(n)
    if margin > 1e-9:
        other = HC(dist=dist[np.ix_(perm, perm)], **kw)
        for k in range(1, n + 1):
            p = cl.partition(get(other, k, n, what))
            back = frozenset(frozenset(int(perm[i]) for i in c) for c in p)
            ensure(back == parts[k], f"{what}: reordering the items changes the {k} clusters")
        s = case["scale"]
        other = HC(dist=dist * s, **kw)
        for k in (2, max(1, n - 1)):
            if k <= n:
                ensure(cl.partition(get(other, k, n, what)) == parts[k], f"{what}: scaling distances changes the clusters")
    ctx.nontrivial(n >= 4)


def source_test(case, ctx):
    """Data, correlation and distance matrices lead to the same tree."""
    n, method = case["n"], case["method"] or "ward"
    kw = {} if case["method"] is None else {"linkage_method": case["method"]}
    cod, cdm = case["codep2"], case["cdm"]
    if cod is not None:
        kw["codependence_method"] = cod
    conv = {} if cdm is None else {"corr_to_dist_method": cdm}
    r = rng(case["seed"])
    X = r.standard_normal((case["obs"], 2))[:, r.integers(0, 2, n)] + r.uniform(0.3, 1.5) * r.standard_normal((case["obs"], n))
    names = [f"s{i}" for i in range(n)]
    df = pd.DataFrame(X, columns=names)
    obj = df if case["frame"] else X
    snaps = snapshot(obj)
    what = f"HC({case['source']}, {method}, {cod}, {cdm})"
    if cod == "var_info":
        dist = np.asarray(get_info_distance_matrix(X, method="var_info"))
        hc = HC(X=obj, **kw)
    elif case["source"] == "corr":
        c = np.corrcoef(X, rowvar=False) if case["real"] else random_cor(n, case["seed"])
        c = (c + c.T) / 2
        np.fill_diagonal(c, 1.0)
        f = {"angular": lambda v: (1 - v) / 2, "abs_angular": lambda v: 1 - np.abs(v), "squared_angular": lambda v: 1 - v * v}
        dist = np.sqrt(np.clip(f[cdm or "angular"](c), 0, 1))
        np.fill_diagonal(dist, 0)
        hc = HC(corr=pd.DataFrame(c, index=names, columns=names) if case["frame"] else c, **kw, **conv)
    else:
        m = (cod or "pearson-correlation").split("-")[0]
        dist = np.asarray(get_corr_distance_matrix(X, corr_method=m, corr_to_dist_method=cdm or "angular"))
        hc = HC(X=obj, **kw, **conv)
    unchanged([obj], snaps, what)
    same(np.asarray(hc.dist) ** 2, dist**2, f"{what} distances squared", atol=1e-10)
    ensure(isinstance(hc.dist, pd.DataFrame) == case["frame"], f"{what}: distances are a {type(hc.dist).__name__}")
    ks = [1 + k % n for k in case["ks"]]
    # tie-free comparisons use the distances of the object itself
    check_tree(hc, np.asarray(hc.dist), method, ks, what, ctx)
    ctx.nontrivial(n >= 4)
    ctx.label(case["source"], cod or "default", cdm or "default")


def precedence_test(case, ctx):
    """A given distance matrix is used as is, also when data are given too."""
    n = case["n"]
    dist = cl.random_dist(n, case["seed"], "points")
    X = rng(case["seed"] + 2).standard_normal((20, n))
    hc = HC(X=X, dist=dist)
    same(np.asarray(hc.dist), dist, "given distances")
    both = HC(X=X, corr=random_cor(n, case["seed"]))
    same(np.asarray(both.dist), np.asarray(HC(corr=random_cor(n, case["seed"])).dist), "data and a correlation: distances", atol=1e-12)
    a = hc.get_optimal_nclusters(max_clust=case["max"], metric=case["metric"], nb=4)
    k = 1 + case["k"] % n
    before = get(hc, k, n, "HC")
    b = hc.get_optimal_nclusters(max_clust=case["max"], metric=case["metric"], nb=4)
    ensure(a == b, f"optimal number of clusters {a}, asked again {b}")
    ensure(np.array_equal(before, get(hc, k, n, "HC")), "clusters changed after optimising their number")
    ctx.nontrivial()


def malformed_test(case, ctx):
    n = 4
    X = rng(case["seed"]).standard_normal((15, n))
    c = random_cor(n, case["seed"])
    bad = case["bad"]
    kw = {} if case["method"] is None else {"linkage_method": case["method"]}
    call = {
        "nothing": lambda: HC(**kw),
        "nothing spearman": lambda: HC(codependence_method="spearman-correlation", **kw),
        "var_info without data": lambda: HC(codependence_method="var_info", **kw),
        "var_info with corr": lambda: HC(corr=c, codependence_method="var_info", **kw),
        "unknown": lambda: HC(X=X, codependence_method=case["name"], **kw),
        "unknown with corr": lambda: HC(corr=c, codependence_method=case["name"], **kw),
    }[bad]
    rejects(call, ValueError, f"HC: {bad} {case['name']}")
    ctx.nontrivial()
    ctx.label(bad)


method = st.sampled_from([None, *cl.METHODS])
ks = st.lists(st.integers(0, 30), min_size=1, max_size=8)
SUBS = [
    Sub(
        "distances",
        st.fixed_dictionaries(
            {
                "n": st.integers(2, 14),
                "seed": seeds(),
                "kind": st.sampled_from(["points", "blobs", "ties", "line", "small", "any", "points", "tiny", "huge"]),
                "method": method,
                "frame": st.booleans(),
                "ordering": st.sampled_from([None, True, False]),
                "codep": st.sampled_from([None, None, "spearman-correlation", "var_info"]),
                "ks": ks,
                "scale": st.sampled_from([0.01, 0.5, 3.0, 100.0]),
            }
        ),
        dist_test,
        quick=350,
    ),
    Sub(
        "many_items",
        st.fixed_dictionaries(
            {
                "n": st.integers(15, 64),
                "seed": seeds(),
                "kind": st.sampled_from(["points", "blobs", "line", "any"]),
                "method": method,
                "frame": st.booleans(),
                "ordering": st.sampled_from([None, True, False]),
                "codep": st.just(None),
                "ks": st.lists(st.integers(0, 63), min_size=1, max_size=4),
                "scale": st.sampled_from([0.01, 100.0]),
            }
        ),
        dist_test,
        quick=30,
    ),
    Sub(
        "sources",
        st.fixed_dictionaries(
            {
                "n": st.integers(2, 9),
                "obs": st.integers(8, 60),
                "seed": seeds(),
                "source": st.sampled_from(["data", "corr"]),
                "real": st.booleans(),
                "method": method,
                "codep2": st.sampled_from([None, "pearson-correlation", "spearman-correlation", "var_info"]),
                "cdm": st.sampled_from([None, "angular", "abs_angular", "squared_angular"]),
                "frame": st.booleans(),
                "ks": ks,
            }
        ),
        source_test,
        quick=300,
    ),
    Sub(
        "repeat",
        st.fixed_dictionaries(
            {"n": st.integers(4, 12), "seed": seeds(), "max": st.integers(2, 15),
             "metric": st.sampled_from(["gap", "silhouette"]), "k": st.integers(0, 12)}
        ),
        precedence_test,
        quick=80,
    ),
    Sub(
        "malformed",
        st.fixed_dictionaries(
            {
                "seed": seeds(),
                "bad": st.sampled_from(
                    ["nothing", "nothing spearman", "var_info without data", "var_info with corr", "unknown", "unknown with corr"]
                ),
                "name": st.sampled_from(["pearson", "kendall", "", "mutual_info", "Var_info", "correlation", "spearman"]),
                "method": method,
            }
        ),
        malformed_test,
        quick=80,
    ),
]
