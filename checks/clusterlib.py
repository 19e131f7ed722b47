"""Brute-force agglomerative clustering and cluster-quality measures."""

import numpy as np

from pbt.core import rng

METHODS = ("single", "complete", "average", "weighted", "centroid", "median", "ward")
MONOTONE = ("single", "complete", "average", "weighted", "ward")


def lance_williams(method, dik, djk, dij, ni, nj, nk):
    if method == "single":
        return min(dik, djk)
    if method == "complete":
        return max(dik, djk)
    if method == "average":
        return (ni * dik + nj * djk) / (ni + nj)
    if method == "weighted":
        return (dik + djk) / 2
    if method == "centroid":
        s = ni + nj
        return np.sqrt(max(0.0, (ni * dik**2 + nj * djk**2) / s - ni * nj * dij**2 / s**2))
    if method == "median":
        return np.sqrt(max(0.0, dik**2 / 2 + djk**2 / 2 - dij**2 / 4))
    if method == "ward":
        t = ni + nj + nk
        return np.sqrt(((ni + nk) * dik**2 + (nj + nk) * djk**2 - nk * dij**2) / t)
    raise ValueError(method)


def agglomerate(dist, method):
    """Partitions (list of frozensets of frozensets) for k = n .. 1, heights, and the smallest gap between choices."""
    n = len(dist)
    clusters = {i: frozenset([i]) for i in range(n)}
    d = {(i, j): float(dist[i, j]) for i in range(n) for j in range(i + 1, n)}
    partitions, heights, margin = {n: frozenset(clusters.values())}, [], np.inf
    nxt = n
    scale = float(np.max(dist)) or 1.0
    while len(clusters) > 1:
        order = sorted(d.items(), key=lambda kv: kv[1])
        (i, j), h = order[0]
        if len(order) > 1:
            margin = min(margin, (order[1][1] - h) / scale)
        heights.append(h)
        a, b = clusters.pop(i), clusters.pop(j)
        new = {}
        for k, c in clusters.items():
            dik = d[min(i, k), max(i, k)]
            djk = d[min(j, k), max(j, k)]
            new[k, nxt] = lance_williams(method, dik, djk, h, len(a), len(b), len(c))
        d = {kv: v for kv, v in d.items() if i not in kv and j not in kv}
        d.update(new)
        clusters[nxt] = a | b
        nxt += 1
        partitions[len(clusters)] = frozenset(clusters.values())
    return partitions, np.array(heights), margin


def partition(labels):
    labels = np.asarray(labels)
    return frozenset(frozenset(np.flatnonzero(labels == v).tolist()) for v in np.unique(labels))


def refines(fine, coarse):
    return all(any(f <= c for c in coarse) for f in fine)


def random_dist(n, seed, kind):
    r = rng(seed)
    if kind == "points":
        p = r.standard_normal((n, 3))
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "blobs":
        p = r.standard_normal((n, 2)) * 0.3 + 4 * r.standard_normal((4, 2))[r.integers(0, 4, n)]
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "ties":
        d = r.integers(1, 4, (n, n)).astype(float)
        d = np.triu(d, 1) + np.triu(d, 1).T
    elif kind == "line":
        p = np.cumsum(r.uniform(0.1, 2, n))
        d = np.abs(p[:, None] - p[None])
    elif kind == "tiny":
        p = r.standard_normal((n, 3)) * 1e-9
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "huge":
        p = r.standard_normal((n, 3)) * 1e7
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "pairs":  # many small groups
        p = np.repeat(10 * r.standard_normal(((n + 1) // 2, 4)), 2, axis=0)[:n] + 0.05 * r.standard_normal((n, 4))
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif kind == "small":
        p = r.standard_normal((n, 3)) * 1e-4
        d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    else:
        d = r.uniform(0.1, 1, (n, n))
        d = np.triu(d, 1) + np.triu(d, 1).T
    np.fill_diagonal(d, 0.0)
    return (d + d.T) / 2


def silhouettes(dist, labels):
    n = len(labels)
    out = np.zeros(n)
    for i in range(n):
        own = [j for j in range(n) if labels[j] == labels[i] and j != i]
        if not own:
            continue
        a = np.mean([dist[i, j] for j in own])
        b = min(np.mean([dist[i, j] for j in range(n) if labels[j] == v]) for v in set(labels.tolist()) if v != labels[i])
        m = max(a, b)
        out[i] = (b - a) / m if m > 0 else 0.0
    return out


def dispersion(dist, labels):
    """Sum of squared within-cluster pair distances (each pair once) over 2k."""
    n = len(labels)
    s = sum(dist[i, j] ** 2 for i in range(n) for j in range(i + 1, n) if labels[i] == labels[j])
    return 2 * s / (4 * len(set(labels.tolist())))


def within_pairs(labels):
    _, c = np.unique(labels, return_counts=True)
    return int((c * (c - 1) // 2).sum())


def cut(Z, k):
    """Labels after the first n - k merges of a linkage matrix."""
    n = len(Z) + 1
    members = {i: [i] for i in range(n)}
    for step in range(n - k):
        a, b = int(Z[step][0]), int(Z[step][1])
        members[n + step] = members.pop(a) + members.pop(b)
    labels = np.empty(n, dtype=int)
    for v, c in enumerate(sorted(members.values(), key=min)):
        labels[c] = v
    return labels
