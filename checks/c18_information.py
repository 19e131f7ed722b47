"""C18: information measures obey the identities of information theory."""

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.distance as qd
from pbt.core import Sub, ensure, rng, same, seeds
from pbt.gen import make_index, snapshot, unchanged

PROPERTY = "C18"
RULE = "both variables vary, at least two bins, and no observation lies on an inner bin edge up to rounding"
ASSUMPTIONS = [
    "observations within 1e-9 (relative) of an inner bin edge are not generated on purpose; such cases only count as trivial",
    "both variables vary (correlation and entropies are undefined otherwise)",
    "known finding kl-dropped-bins: bins that only the first variable occupies are left out of the KL sum",
]


def bin_index(x, bins):
    """Bin of every observation in equal-width bins from min to max, and whether all are clear of the inner edges."""
    lo, hi = x.min(), x.max()
    pos = (x - lo) / (hi - lo) * bins
    inner = np.round(pos)
    on_edge = (np.abs(pos - inner) < 1e-7) & (inner > 0) & (inner < bins)
    return np.minimum(pos.astype(int), bins - 1), not on_edge.any()


def entropy_of(codes):
    _, counts = np.unique(codes, return_counts=True, axis=0)
    p = counts / counts.sum()
    return float(-(p * np.log(p)).sum())


def optimal_bins(n, rho):
    """Hacine-Gharbi and Ravier. Returns (bins, clear of rounding halves)."""
    if abs(abs(rho) - 1) < 1e-5:
        z = (8 + 324 * n + 12 * math.sqrt(36 * n + 729 * n * n)) ** (1 / 3)
        b = z / 6 + 2 / (3 * z) + 1 / 3
    else:
        b = math.sqrt((1 + math.sqrt(1 + 24 * n / (1 - rho * rho))) / 2)
    near_switch = abs(abs(abs(rho) - 1) - 1e-5) < 1e-7
    return round(b), abs(b % 1 - 0.5) > 1e-6 and not near_switch


def sample(case):
    r = rng(case["seed"])
    n = case["n"]
    x = r.standard_normal(n)
    kind = case["kind"]
    if kind == "linear":
        y = case["rho"] * x + math.sqrt(1 - case["rho"] ** 2) * r.standard_normal(n)
    elif kind == "square":
        y = x**2 + 0.1 * r.standard_normal(n)
    elif kind == "copy":
        y = 3 * x - 1
    elif kind == "mirror":
        y = -2 * x
    elif kind == "ties":
        x = r.integers(0, 5, n).astype(float)
        y = np.where(r.uniform(size=n) < 0.5, x, r.integers(0, 5, n).astype(float)) * 2 + 1
    elif kind == "heavy":
        x = r.standard_t(2, n)
        y = r.standard_t(2, n) + 0.5 * x
    else:
        x, y = r.uniform(size=n), r.exponential(size=n)
    return x, y


def setup(case):
    x, y = sample(case)
    if np.ptp(x) == 0 or np.ptp(y) == 0:
        return None
    rho = float(np.corrcoef(x, y)[0, 1])
    clear = True
    bins = case["bins"]
    if bins is None:
        bins, clear = optimal_bins(len(x), rho)
    ix, okx = bin_index(x, bins)
    iy, oky = bin_index(y, bins)
    return x, y, bins, ix, iy, clear and okx and oky


def wrap(x, case, which):
    if case["container"] == "array":
        return x
    return pd.Series(x, index=make_index(case["index"], len(x), which), name=f"v{which}")


def info_test(case, ctx):
    s = setup(case)
    if s is None:
        return
    x, y, bins, ix, iy, clear = s
    kw = {} if case["bins"] is None else {"bins": case["bins"]}
    X, Y = wrap(x, case, 0), wrap(y, case, 0)
    snaps = snapshot(X, Y)
    norm = case["norm"]
    if norm is not None:
        kw["norm"] = norm
    normed = norm is None or norm
    mi, vi = float(qd.mutual_info(X, Y, **kw)), float(qd.var_info(X, Y, **kw))
    hs = [float(h) for h in qd.compute_entropies(X, Y, bins)]
    unchanged([X, Y], snaps, "information measures")
    what = f"({case['kind']}, n={len(x)}, bins={case['bins']} -> {bins}, norm={norm})"
    eps = 1e-9
    # identities that hold whatever the binning
    hx, hy, hxy = hs
    if case["bins"] is not None or clear:
        i, v = hx + hy - hxy, 2 * hxy - hx - hy
        same(mi, i / math.sqrt(hx * hy) if normed else i, f"mutual information {what} against the entropies", rtol=1e-9, atol=eps)
        same(vi, v / hxy if normed else v, f"variation of information {what} against the entropies", rtol=1e-9, atol=eps)
    if not clear:
        ctx.label("on an edge")
        return
    rx, ry, rxy = entropy_of(ix), entropy_of(iy), entropy_of(np.column_stack([ix, iy]))
    same(hs, [rx, ry, rxy], f"entropies {what}", rtol=1e-9, atol=1e-12)
    i, v = rx + ry - rxy, 2 * rxy - rx - ry
    same(mi, i / math.sqrt(rx * ry) if normed else i, f"mutual information {what}", rtol=1e-9, atol=eps)
    same(vi, v / rxy if normed else v, f"variation of information {what}", rtol=1e-9, atol=eps)
    ensure(-eps <= mi <= (1 if normed else min(rx, ry)) + eps, f"mutual information {what} out of bounds: {mi}")
    ensure(-eps <= vi <= (1 if normed else rxy) + eps, f"variation of information {what} out of bounds: {vi}")
    same(qd.mutual_info(Y, X, **kw), mi, f"mutual information {what} with variables exchanged", atol=eps)
    same(qd.var_info(Y, X, **kw), vi, f"variation of information {what} with variables exchanged", atol=eps)
    same(qd.var_info(X, X, **kw), 0.0, f"variation of information {what} with itself", atol=eps)
    same(qd.mutual_info(x, x, bins=bins, norm=False), rx, f"mutual information {what} with itself", atol=eps)
    perm = rng(case["seed"] + 1).permutation(len(x))
    same(qd.mutual_info(x[perm], y[perm], **kw), mi, f"mutual information {what} reordered", atol=eps)
    same(qd.var_info(x[perm], y[perm], **kw), vi, f"variation of information {what} reordered", atol=eps)
    a, b = case["a"], case["b"]
    same(qd.mutual_info(a * x + b, y, **kw), mi, f"mutual information {what} of {a} x + {b}", atol=eps)
    same(qd.var_info(x, a * y + b, **kw), vi, f"variation of information {what} of {a} y + {b}", atol=eps)
    ctx.nontrivial(bins > 1)
    ctx.label(case["kind"], "given bins" if case["bins"] else "optimal bins")


def kl_sum(ix, iy, bins):
    p = np.bincount(ix, minlength=bins) / len(ix)
    q = np.bincount(iy, minlength=bins) / len(iy)
    both = (p > 0) & (q > 0)
    return float((p[both] * np.log(p[both] / q[both])).sum()), bool(np.all(q[p > 0] > 0))


def kl_test(case, ctx):
    s = setup(case)
    if s is None:
        return
    x, y, bins, ix, iy, clear = s
    kw = {} if case["bins"] is None else {"bins": case["bins"]}
    X, Y = wrap(x, case, 0), wrap(y, case, 1)
    if case["short"] and case["bins"] is not None:  # samples of different sizes are fine with given bins
        y = y[: max(3, len(y) // 2)]
        if np.ptp(y) == 0:
            return
        Y = wrap(y, case, 1)
        iy, ok = bin_index(y, bins)
        clear = clear and ok
    snaps = snapshot(X, Y)
    kl = float(qd.kl_divergence_xy(X, Y, **kw))
    unchanged([X, Y], snaps, "KL divergence")
    what = f"KL ({case['kind']}, n={len(x)}, bins={case['bins']} -> {bins})"
    same(qd.kl_divergence_xy(X, X, **kw), 0.0, f"{what} of identical data", atol=1e-12)
    if not clear:
        ctx.label("on an edge")
        return
    want, covered = kl_sum(ix, iy, bins)
    if covered:
        same(kl, want, what, rtol=1e-9, atol=1e-12)
        ensure(kl >= -1e-12, f"{what}: negative")
        ctx.nontrivial(bins > 1)
        ctx.label("covered")
    else:
        # known finding kl-dropped-bins; a repaired divergence would be infinite
        ensure(np.isclose(kl, want, rtol=1e-9, atol=1e-12) or kl >= 0, f"{what}: {kl}, common bins give {want}")
        ctx.label("not covered")


def bins_test(case, ctx):
    """The number of bins chosen for many sizes: seen through the mutual information (and, at rho = +-1, the entropy) it gives."""
    r = rng(case["seed"])
    seen = 0
    for n in range(case["start"], case["start"] + 25):
        x = r.standard_normal(n)
        e = r.standard_normal(n)
        e = e - e.mean() - (x - x.mean()) * ((e - e.mean()) @ (x - x.mean())) / ((x - x.mean()) @ (x - x.mean()))
        x0 = (x - x.mean()) / np.linalg.norm(x - x.mean())
        y = case["rho"] * x0 + math.sqrt(max(0.0, 1 - case["rho"] ** 2)) * e / np.linalg.norm(e)
        if case["flip"]:
            y = 5 - 3 * y
        rho = float(np.corrcoef(x, y)[0, 1])
        bins, clear = optimal_bins(n, rho)
        (ix, okx), (iy, oky) = bin_index(x, bins), bin_index(y, bins)
        if not (clear and okx and oky):
            continue
        rx, ry, rxy = entropy_of(ix), entropy_of(iy), entropy_of(np.column_stack([ix, iy]))
        what = f"of {n} observations, correlation {rho:.9f}, {bins} bins"
        same(qd.mutual_info(x, y, norm=False), rx + ry - rxy, f"mutual information {what}", atol=1e-9)
        same(qd.var_info(x, y, norm=False), 2 * rxy - rx - ry, f"variation of information {what}", atol=1e-9)
        seen += bins > 1
    ctx.nontrivial(seen > 5)
    ctx.label("univariate" if abs(abs(rho) - 1) < 1e-5 else "bivariate")


def probe_kl():
    """A KL divergence must not be negative: x occupies a bin that y does not."""
    x = np.array([0.0, 0.1, 0.2, 5.0, 5.1, 10.0])
    y = np.array([0.0, 0.1, 0.2, 0.3, 0.15, 10.0])
    return float(qd.kl_divergence_xy(x, y, bins=4)) < 0


FINDINGS = {"kl-dropped-bins": probe_kl}

case = {
    "n": st.one_of(st.integers(3, 40), st.integers(20, 300), st.sampled_from([500, 1000])),
    "seed": seeds(),
    "kind": st.sampled_from(["linear", "linear", "square", "copy", "mirror", "ties", "heavy", "other"]),
    "rho": st.floats(-0.99, 0.99).map(lambda v: round(v, 3)),
    "bins": st.one_of(st.none(), st.integers(2, 8), st.sampled_from([3, 7, 10, 20, 50])),
    "container": st.sampled_from(["array", "series"]),
    "index": st.sampled_from(["range", "dates", "shuffled", "dups"]),
}
SUBS = [
    Sub(
        "information",
        st.fixed_dictionaries(
            {
                **case,
                "norm": st.sampled_from([None, True, False]),
                "a": st.sampled_from([0.25, 2.0, 3.3, 100.0, 1e-6, 1e9]),
                "b": st.sampled_from([0.0, -3.0, 10.0]),
            }
        ),
        info_test,
        quick=1000,
    ),
    Sub("kl", st.fixed_dictionaries({**case, "short": st.booleans()}), kl_test, quick=800),
    Sub(
        "bins",
        st.fixed_dictionaries(
            {
                "start": st.one_of(st.integers(3, 300), st.integers(300, 2000)),
                "seed": seeds(),
                "rho": st.one_of(st.just(1.0), st.just(0.0), st.sampled_from([0.9, 0.99, 0.999, 0.9999, 0.99998, 0.999995]), st.floats(0, 0.99)),
                "flip": st.booleans(),
            }
        ),
        bins_test,
        quick=150,
    ),
]
