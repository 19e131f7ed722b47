"""C22: cluster-quality metrics and the chosen number of clusters follow the definitions."""

import math
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.cluster import hierarchy
from scipy.spatial.distance import squareform

from checks import clusterlib as cl
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import snapshot, unchanged
from quantfinlib.clustering import HC, gap_statistic, optimize_n_clusters, silhouette_tstat

PROPERTY = "C22"
RULE = "at least four items in at least two clusters, one of which has more than one item and a positive dispersion"
ASSUMPTIONS = [
    "the random reference term of the gap is checked statistically (at 8 standard deviations, 50 or more within-cluster "
    "pairs) and through relations that hold for any reference draw",
    "the selection rule is compared when no two candidates are tied within 1e-9",
]


def labeling(n, k, seed, kind):
    r = rng(seed + 11)
    lab = np.r_[np.arange(k), r.integers(0, k, n - k)]
    lab = r.permutation(lab)
    if kind == "offset":
        lab = lab * 3 - 7
    return lab


def setup(case):
    n = case["n"]
    k = 2 + case["k"] % (n - 2)
    dist = cl.random_dist(n, case["seed"], case["kind"])
    lab = labeling(n, k, case["seed"], case["labels"])
    D = pd.DataFrame(dist) if case["frame"] else dist
    L = pd.Series(lab, index=np.arange(n)[::-1]) if case["series"] else lab
    return dist, lab, D, L, k


def relabel(lab, seed):
    vals = np.unique(lab)
    new = rng(seed + 13).permutation(len(vals)) * 5 + 2
    return new[np.searchsorted(vals, lab)]


def silhouette_test(case, ctx):
    dist, lab, D, L, k = setup(case)
    s = cl.silhouettes(dist, lab)
    sd = np.sqrt(np.mean((s - s.mean()) ** 2))
    if sd < 1e-6:
        return
    snaps = snapshot(D, L)
    t = float(silhouette_tstat(D, L))
    unchanged([D, L], snaps, "silhouette")
    what = f"silhouette t-statistic (n={len(lab)}, k={k})"
    same(t, s.mean() / sd, what, rtol=1e-6, atol=1e-8)
    same(silhouette_tstat(dist=dist, labels=relabel(lab, case["seed"])), t, what + " relabelled", rtol=1e-8, atol=1e-9)
    same(silhouette_tstat(dist * case["scale"], lab), t, what + " scaled", rtol=1e-6, atol=1e-8)
    perm = rng(case["seed"] + 1).permutation(len(lab))
    same(silhouette_tstat(dist[np.ix_(perm, perm)], lab[perm]), t, what + " reordered", rtol=1e-6, atol=1e-8)
    ctx.nontrivial(len(lab) >= 4)
    ctx.label(case["kind"], "singletons" if (np.unique(lab, return_counts=True)[1] == 1).any() else "no singletons")


def gap_test(case, ctx):
    dist, lab, D, L, k = setup(case)
    W = cl.dispersion(dist, lab)
    if W <= 0:
        return
    kw = {} if case["nb"] is None else {"nb": case["nb"]}
    if case["rs"] is not None:
        kw["random_state"] = case["rs"]
    nb = case["nb"] or 10
    np.random.seed(case["seed"] % 1000)
    random.seed(case["seed"] % 1000)
    state, pstate = np.random.get_state(), random.getstate()
    snaps = snapshot(D, L)
    g, s = (float(v) for v in gap_statistic(D, L, **kw))
    unchanged([D, L], snaps, "gap statistic")
    now = np.random.get_state()
    ensure(all(np.array_equal(a, b) for a, b in zip(state, now)) and random.getstate() == pstate,
           "gap statistic touches the global random state")
    what = f"gap (n={len(lab)}, k={k}, nb={nb}, random_state={case['rs']})"
    ensure(np.isfinite(g) and s >= 0, f"{what}: {g}, {s}")
    # distances counted in whole numbers, in whatever type holds them
    top = np.iinfo(case["dtype"]).max
    whole = np.round(dist / dist.max() * min(top, 5000)).astype(case["dtype"])
    if cl.dispersion(whole.astype(float), lab) > 0:
        same(gap_statistic(whole, lab, **kw), gap_statistic(whole.astype(float), lab, **kw), f"{what} of {case['dtype']}",
             rtol=1e-9, atol=1e-10)
    if case["rs"] is not None:
        np.random.uniform(size=3)
        g2, s2 = gap_statistic(dist, lab, **kw)
        same([g2, s2], [g, s], what + " again", rtol=1e-12)
        g3, s3 = gap_statistic(dist, relabel(lab, case["seed"]), **kw)
        same([g3, s3], [g, s], what + " relabelled", rtol=1e-9, atol=1e-10)
        g4, s4 = gap_statistic(dist * case["scale"], lab, **kw)
        same([g4, s4], [g, s], what + " scaled", rtol=1e-8, atol=1e-8)
        # shrinking distances that are not the largest only changes the data term
        other = dist * 0.5
        i, j = np.unravel_index(np.argmax(dist), dist.shape)
        other[i, j] = other[j, i] = dist[i, j]
        g5, s5 = gap_statistic(other, lab, **kw)
        same([g5 + math.log(cl.dispersion(other, lab)), s5], [g + math.log(W), s], what + " reference term of other data",
             rtol=1e-8, atol=1e-8)
        if nb > 1:
            g6, s6 = gap_statistic(dist, lab, **{**kw, "random_state": case["rs"] + 1000})
            ensure(g6 != g or s6 != s, f"{what}: another seed gives the same reference")
            ensure(s > 0, f"{what}: no variation between reference matrices")
        else:
            same(s, 0.0, what + " deviation of a single reference", atol=1e-12)
    M = cl.within_pairs(lab)
    if M >= 50:
        top = dist.max()
        centre = math.log(M * 2 * top**2 / 3 / (4 * k))
        sd = math.sqrt(4 / 45) * 3 / math.sqrt(M)
        E = g + math.log(W)
        ensure(abs(E - centre) <= 8 * sd / math.sqrt(nb) + 2.0 / M, f"{what}: reference term {E}, expected about {centre}")
        if nb >= 10:
            ensure(0.05 * sd < s < 4 * sd, f"{what}: deviation {s}, expected about {sd}")
        ctx.label("statistics")
    ctx.nontrivial(len(lab) >= 4)


def averaged_test(case, ctx):
    """nb reference matrices are averaged: a run with nb is the average of nb runs with one, and so is its deviation."""
    dist, lab, D, L, k = setup(case)
    if cl.dispersion(dist, lab) <= 0:
        return
    nb, rs = case["nb"], case["rs"]
    g, s = (float(v) for v in gap_statistic(dist, lab, nb=nb, random_state=rs))
    run = [float(gap_statistic(dist, lab, nb=m, random_state=rs)[0]) * m for m in range(1, nb + 1)]
    terms = np.diff([0.0] + run)
    same(s, math.sqrt(np.mean((terms - terms.mean()) ** 2)), f"deviation of {nb} references", rtol=1e-6, atol=1e-9 * (1 + abs(g)) * nb)
    ensure(np.min(np.diff(np.sort(terms))) > 1e-10, f"two of {nb} references are equal")
    gs = []
    for m in (nb - 1, nb):
        gs.append(float(gap_statistic(dist, lab, nb=m, random_state=rs)[0]) * m)
    ctx.nontrivial()
    # the deviation bounds how far the mean can move when one of nb terms is left out
    last = gs[1] - gs[0]
    ensure(abs(last - g) <= s * math.sqrt(nb) + 1e-9, f"gap: last of {nb} references is {last}, mean {g}, deviation {s}")


def select_test(case, ctx):
    n = case["n"]
    dist = cl.random_dist(n, case["seed"], case["kind"])
    Z = hierarchy.linkage(squareform(dist), method=case["method"])
    D = pd.DataFrame(dist) if case["frame"] else dist
    kw = {}
    if case["max"] is not None:
        kw["max_clust"] = case["max"]
    if case["metric"] is not None:
        kw["metric"] = case["metric"]
    nb = 10
    if case["nb"] is not None:
        nb = kw["nb"] = case["nb"]
    top = min(case["max"] or 20, n - 1)
    cand = list(range(2, top + 1))
    labs = {k: cl.cut(Z, k) for k in cand}
    metric = case["metric"] or "gap"
    snaps = snapshot(D, Z)
    np.random.seed(case["seed"] % 1000)
    state = np.random.get_state()
    got = optimize_n_clusters(Z, D, **kw)
    ensure(all(np.array_equal(a, b) for a, b in zip(state, np.random.get_state())), "optimising touches the global random state")
    unchanged([D, Z], snaps, "optimize_n_clusters")
    what = f"optimal number of clusters (n={n}, {kw})"
    ensure(got == int(got) and 2 <= got <= top, f"{what}: {got} not in 2..{top}")
    ensure(optimize_n_clusters(Z, dist, **kw) == got, f"{what}: another answer the second time")
    if case["through"]:
        hc = HC(dist=D, linkage_method=case["method"], optimal_ordering=False)
        ensure(hc.get_optimal_nclusters(**kw) == got, f"{what}: HC gives another answer")
    if metric == "silhouette":
        v = np.array([float(silhouette_tstat(dist, labs[k])) for k in cand])
        if not np.all(np.isfinite(v)):
            return
        best = np.sort(v)
        if len(v) > 1 and best[-1] - best[-2] < 1e-9:
            return
        ensure(got == cand[int(np.argmax(v))], f"{what}: {got}, silhouettes {dict(zip(cand, v.round(4)))}")
    else:
        gs = [gap_statistic(dist, labs[k], nb=nb) for k in cand]
        g, s = np.array([a for a, _ in gs]), np.array([b for _, b in gs])
        if not np.all(np.isfinite(g)):
            return
        want = cand[-1]
        for i in range(len(cand) - 1):
            d = g[i] - g[i + 1] + s[i + 1]
            if abs(d) < 1e-9:
                return
            if d > 0:
                want = cand[i]
                break
        ensure(got == want, f"{what}: {got}, expected {want}")
    ctx.nontrivial(len(cand) > 1)
    ctx.label(metric, "largest" if got == cand[-1] else "inner")


def malformed_test(case, ctx):
    dist, lab, D, L, k = setup(case)
    Z = hierarchy.linkage(squareform(dist))
    ok = (AssertionError, ValueError)
    fns = {"gap": gap_statistic, "silhouette": silhouette_tstat}
    fn = fns[case["fn"]]
    bad = case["bad"]
    if bad == "metric":
        rejects(lambda: optimize_n_clusters(Z, dist, metric=case["name"]), ok, f"metric {case['name']!r}")
    else:
        call = {
            "short labels": lambda: fn(D, L[:-1]),
            "long labels": lambda: fn(dist, np.r_[lab, 0]),
            "label list": lambda: fn(D, lab.tolist()),
            "label matrix": lambda: fn(D, lab[:, None]),
            "distance list": lambda: fn(dist.tolist(), L),
            "distance vector": lambda: fn(squareform(dist), L),
        }[bad]
        rejects(call, ok, f"{case['fn']}: {bad}")
    ctx.nontrivial()
    ctx.label(bad)


KINDS = ["points", "blobs", "line", "small", "any", "ties"]
base = {
    "n": st.one_of(st.integers(4, 12), st.integers(4, 30)),
    "k": st.integers(0, 30),
    "seed": seeds(),
    "kind": st.sampled_from(KINDS),
    "labels": st.sampled_from(["plain", "offset"]),
    "frame": st.booleans(),
    "series": st.booleans(),
    "scale": st.sampled_from([0.01, 0.5, 3.0, 100.0, 1e-7, 1e7]),
    "dtype": st.sampled_from(["int8", "uint8", "int16", "int64"]),
}
SUBS = [
    Sub("silhouette", st.fixed_dictionaries(base), silhouette_test, quick=350),
    Sub(
        "gap",
        st.fixed_dictionaries(
            {**base, "nb": st.sampled_from([None, 1, 2, 5, 10, 20]),
             "rs": st.one_of(st.none(), st.integers(0, 5), st.integers(0, 10**6), st.integers(0, 10**6))}
        ),
        gap_test,
        quick=500,
    ),
    Sub(
        "gap_large",
        st.fixed_dictionaries(
            {**base, "n": st.integers(24, 60), "k": st.integers(0, 3), "nb": st.sampled_from([None, 10, 40]),
             "rs": st.one_of(st.none(), st.integers(0, 10**6))}
        ),
        gap_test,
        quick=60,
    ),
    Sub("gap_average", st.fixed_dictionaries({**base, "nb": st.one_of(st.integers(2, 12), st.integers(13, 45)), "rs": st.integers(0, 10**5)}), averaged_test,
        quick=100),
    Sub(
        "selection",
        st.fixed_dictionaries(
            {
                "n": st.one_of(st.integers(3, 9), st.integers(5, 26), st.integers(5, 40)),
                "seed": seeds(),
                "kind": st.sampled_from(KINDS[:-1]),
                "method": st.sampled_from(cl.METHODS),
                "max": st.one_of(st.none(), st.integers(2, 6), st.integers(2, 45)),
                "metric": st.sampled_from([None, "gap", "silhouette"]),
                "nb": st.sampled_from([None, 1, 3, 12]),
                "frame": st.booleans(),
                "through": st.booleans(),
            }
        ),
        select_test,
        quick=220,
    ),
    Sub(
        "many_clusters",
        st.fixed_dictionaries(
            {
                "n": st.integers(40, 70),
                "seed": seeds(),
                "kind": st.just("pairs"),
                "method": st.sampled_from(["single", "average", "complete", "ward"]),
                "max": st.integers(25, 50),
                "metric": st.sampled_from(["silhouette", "silhouette", "gap"]),
                "nb": st.just(1),
                "frame": st.booleans(),
                "through": st.booleans(),
            }
        ),
        select_test,
        quick=16,
    ),
    Sub(
        "malformed",
        st.fixed_dictionaries(
            {
                **base,
                "fn": st.sampled_from(["gap", "silhouette"]),
                "bad": st.sampled_from(
                    ["metric", "short labels", "long labels", "label list", "label matrix", "distance list", "distance vector"]
                ),
                "name": st.sampled_from(["Gap", "", "silh", "elbow"]),
            }
        ),
        malformed_test,
        quick=100,
    ),
]
