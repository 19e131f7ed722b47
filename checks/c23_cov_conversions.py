"""C23: covariance, correlation and eigen conversions round-trip."""

import numpy as np
from hypothesis import strategies as st

from quantfinlib.math import cov as qc
from checks.c19_matrix_divergence import orthogonal
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import random_cor, snapshot, unchanged

PROPERTY = "C23"
RULE = "at least two variates (two blocks, two assets) with a non-zero correlation; densities: some point inside the support"
ASSUMPTIONS = [
    "covariances have variances well above the documented regularisation floor, unless the floor itself is tested",
    "eigenvectors are compared through the projectors they span",
]


def cor_of(n, seed, kind):
    r = rng(seed)
    if kind == "random":
        return random_cor(n, seed)
    if kind == "sample":  # possibly rank deficient, with strong factors
        T = int(r.integers(3, 3 * n + 4))
        x = r.standard_normal((T, 1)) * r.uniform(-2, 2, n) + r.standard_normal((T, n))
        c = np.corrcoef(x, rowvar=False).reshape(n, n)
    elif kind == "block":
        c = np.eye(n)
        h = max(1, n // 2)
        c[:h, :h] = 0.6
        c[h:, h:] = 0.3
    elif kind == "identity":
        c = np.eye(n)
    elif kind == "indefinite":  # pairwise estimates need not be positive semi-definite
        c = np.triu(r.uniform(-1, 1, (n, n)), 1)
        c = c + c.T
    elif kind == "near_copies":  # almost the same variable twice
        c = random_cor(n, seed)
        for j in range(1, n, 2):
            eps = 10.0 ** r.uniform(-10, -5)
            c[j], c[:, j] = c[j - 1] * (1 - eps), c[:, j - 1] * (1 - eps)
            c[j, j - 1] = c[j - 1, j] = 1 - eps
    else:  # perfectly (anti-)correlated
        s = r.choice([-1.0, 1.0], n)
        c = np.outer(s, s)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


KINDS = ("random", "sample", "block", "identity", "perfect", "indefinite", "near_copies")
matrix = dict(n=st.one_of(st.integers(1, 12), st.integers(13, 40)), seed=seeds(), kind=st.sampled_from(KINDS))


def cov_test(case, ctx):
    n, r = case["n"], rng(case["seed"] + 1)
    cor = cor_of(n, case["seed"], case["kind"])
    std = np.exp(r.uniform(np.log(5e-5 if case["seed"] % 2 else 0.01), np.log(100), n))
    cov = cor * np.outer(std, std)
    snaps = snapshot(cov, std, cor)
    c, s = qc._cov_to_cor(cov)
    unchanged([cov], snaps[:1], "_cov_to_cor")
    same(s, std, "standard deviations", rtol=1e-9)
    same(c, cor, "correlations", rtol=1e-11, atol=1e-12)
    ensure(np.all(np.abs(c) <= 1), f"correlations outside [-1, 1]: {c}")
    same(np.diag(c), np.ones(n), "diagonal", rtol=1e-12)
    same(c, c.T, "symmetry", rtol=0, atol=1e-14)
    c_snap, s_snap = snapshot(c, s)
    back = qc._cor_to_cov(c, s)
    unchanged([c, s], [c_snap, s_snap], "_cor_to_cov")
    same(back, cov, "covariance after the round trip", rtol=1e-9, atol=1e-12 * np.outer(std, std))
    back2 = qc._cor_to_cov(cor, std)
    unchanged([cor, std], [snaps[2], snaps[1]], "_cor_to_cov")
    same(back2, cov, "covariance from correlation and std", rtol=1e-12)
    # rescaling the variables changes the standard deviations only
    f = np.exp(r.uniform(-2, 2, n))
    c2, s2 = qc._cov_to_cor(cov * np.outer(f, f))
    same(c2, c, "correlations of rescaled variables", rtol=1e-9, atol=1e-12)
    same(s2, s * f, "standard deviations of rescaled variables", rtol=1e-9)
    # variables are independent of each other: a permutation commutes
    p = r.permutation(n)
    c3, s3 = qc._cov_to_cor(cov[np.ix_(p, p)])
    same(c3, c[np.ix_(p, p)], "permuted correlations", rtol=1e-12)
    same(s3, s[p], "permuted standard deviations", rtol=1e-12)
    ctx.label(case["kind"])
    ctx.nontrivial(n > 1 and case["kind"] != "identity")


def clip_test(case, ctx):
    """A covariance that is inconsistent by more than rounding is clipped; tiny variances are floored."""
    n, r = case["n"], rng(case["seed"])
    std = np.exp(r.uniform(-1, 1, n))
    cor = np.triu(r.uniform(-2, 2, (n, n)), 1)
    cor = cor + cor.T + np.eye(n)
    cov = cor * np.outer(std, std)
    c, s = qc._cov_to_cor(cov)
    same(c, np.clip(cor, -1, 1), "clipped correlations", rtol=1e-9, atol=1e-12)
    reg = case["reg"]
    var = np.array([(reg * 10.0**e) ** 2 for e in case["exps"]])
    cov = np.diag(var)
    c, s = qc._cov_to_cor(cov, cov_reg=reg)
    same(s, np.maximum(np.sqrt(var), reg), "floored standard deviations", rtol=1e-9)
    ensure(np.all(np.isfinite(c)), "non-finite correlation of a (nearly) constant variable")
    m = len(var)
    same(c[~np.eye(m, dtype=bool)], np.zeros(m * m - m), "off-diagonal", atol=0)
    ctx.nontrivial()


def eig_test(case, ctx):
    n = case["n"]
    cor = cor_of(n, case["seed"], case["kind"])
    snap = snapshot(cor)
    for sort in (True, False):
        v, e = qc._cor_to_eig(cor, sort=sort)
        unchanged([cor], snap, "_cor_to_eig")
        ensure(v.shape == (n,) and e.shape == (n, n), f"shapes {v.shape}, {e.shape}")
        if sort:
            ensure(np.all(np.diff(v) <= 0), f"not in decreasing order: {v}")
        same(e.T @ e, np.eye(n), "orthonormality", atol=1e-9)
        same(cor @ e, e * v, "eigen equation", atol=1e-9 * n)
        same(np.sort(v), np.linalg.eigvalsh(cor), "eigenvalues", atol=1e-9 * n)
        vs, es = snapshot(v, e)
        back = qc._eig_to_cor(v, e)
        unchanged([v, e], [vs, es], "_eig_to_cor")
        same(back, cor, "correlation after the round trip", atol=1e-9 * n)
        ensure(np.all(np.abs(back) <= 1), "outside [-1, 1]")
        ensure(np.all(np.diag(back) == 1), f"diagonal {np.diag(back)}")
        p = rng(case["seed"]).permutation(n)
        same(qc._eig_to_cor(v[p], e[:, p]), cor, "round trip in another order", atol=1e-9 * n)
    full = np.sort(np.linalg.eigvalsh(cor))[::-1]
    k = 1 + case["k"] % n
    for sort in (True, False):
        v, e = qc._cor_to_eig(cor, sort=sort, k=k)
        ensure(v.shape == (k,) and e.shape == (n, k), f"k={k}: shapes {v.shape}, {e.shape}")
        same(np.sort(v)[::-1], full[:k], f"the {k} largest eigenvalues", atol=1e-9 * n)
        if sort:
            ensure(np.all(np.diff(v) <= 0), f"k={k}: not in decreasing order: {v}")
        same(cor @ e, e * v, "eigen equation (truncated)", atol=1e-9 * n)
        same(e.T @ e, np.eye(k), "orthonormality (truncated)", atol=1e-9)
        same(qc._eig_to_cor(v, e)[~np.eye(n, dtype=bool)], np.clip((e * v) @ e.T, -1, 1)[~np.eye(n, dtype=bool)],
             "off-diagonal of the truncated reconstruction", atol=1e-12)
    ctx.label(case["kind"])
    ctx.nontrivial(n > 1 and case["kind"] != "identity")


def complete_test(case, ctx):
    n = case["n"]
    k = 1 + case["k"] % n
    r = rng(case["seed"])
    if case["from_cor"]:
        v, e = qc._cor_to_eig(cor_of(n, case["seed"], case["kind"]), k=k)
    else:
        e = orthogonal(n, case["seed"])[:, :k]
        v = np.sort(r.dirichlet(np.ones(n)) * n)[::-1][:k]
    vs, es = snapshot(v, e)
    fv, fe = qc._eig_complete(v, e)
    unchanged([v, e], [vs, es], "_eig_complete")
    ensure(fv.shape == (n,) and fe.shape == (n, n), f"shapes {fv.shape}, {fe.shape}")
    same(fv[:k], v, "given eigenvalues", rtol=0, atol=0)
    same(fe[:, :k], e, "given eigenvectors", rtol=0, atol=0)
    same(fe.T @ fe, np.eye(n), "orthonormal basis", atol=1e-8)
    if k < n:
        ensure(abs(np.sum(fv) - n) < 1e-9 * n, f"trace {np.sum(fv)}, expected {n}")
        same(fv[k:], np.full(n - k, (n - np.sum(v)) / (n - k)), "completed eigenvalues", atol=1e-12)
    ctx.label("complete" if k == n else "partial")
    ctx.nontrivial(k < n)


def block_test(case, ctx):
    sizes, cors = case["sizes"], case["cors"][: len(case["sizes"])]
    args = (np.array(sizes, dtype=int), np.array(cors)) if case["array"] and sizes else (list(sizes), list(cors))
    snaps = snapshot(*args)
    m = qc._cor_block_diagonal(*args)
    unchanged(args, snaps, "_cor_block_diagonal")
    n = sum(sizes)
    ensure(np.shape(m) == (n, n), f"shape {np.shape(m)}")
    blk = np.repeat(np.arange(len(sizes)), sizes)
    for i in range(n):
        for j in range(n):
            want = 1.0 if i == j else (cors[blk[i]] if blk[i] == blk[j] else 0.0)
            ensure(m[i, j] == want, f"[{i},{j}] = {m[i, j]}, expected {want}")
    rejects(lambda: qc._cor_block_diagonal(list(sizes) + [2], list(cors)), (ValueError,), "one size too many")
    rejects(lambda: qc._cor_block_diagonal(list(sizes), list(cors) + [0.1]), (ValueError,), "one correlation too many")
    ctx.nontrivial(len([s for s in sizes if s > 1]) >= 2)


def random_test(case, ctx):
    n = case["n"]
    np.random.seed(case["seed"])
    cov = qc._random_cov(n) if case["positional"] else qc._random_cov(dim=n)
    cor = qc._random_cor(n) if case["positional"] else qc._random_cor(dim=n)
    for m, what in ((cov, "_random_cov"), (cor, "_random_cor")):
        ensure(np.linalg.eigvalsh(m)[0] > 0, f"{what}: singular")
        ensure(np.shape(m) == (n, n), f"{what}: shape {np.shape(m)}")
        same(m, m.T, what + " symmetry", rtol=1e-12)
        w = np.linalg.eigvalsh(m)
        ensure(np.all(w > -1e-9 * np.max(np.abs(w))), f"{what}: not positive semi-definite: {w}")
        ensure(np.all(np.diag(m) > 0), f"{what}: diagonal {np.diag(m)}")
    same(np.diag(cor), np.ones(n), "_random_cor diagonal", rtol=1e-12)
    ensure(np.all(np.abs(cor) <= 1), "_random_cor outside [-1, 1]")
    np.random.seed(case["seed"])
    same(qc._random_cov(n), cov, "_random_cov with the same global seed", rtol=0)
    if n > 1:
        other = qc._random_cov(n)
        ensure(not np.array_equal(other, cov), "_random_cov returns the same matrix twice")
    ctx.nontrivial(n > 1)


def mp_test(case, ctx):
    var, T, N = case["var"], case["T"], case["N"]
    lo, hi = qc._marcenko_pastur_support(var, T, N)
    y = N / T
    same([lo, hi], [var * (1 - y**0.5) ** 2, var * (1 + y**0.5) ** 2], "support", rtol=1e-9, atol=1e-12)
    # substitution x = mid - half cos(t) removes the square-root ends
    m = 4001
    t = np.linspace(0, np.pi, m)
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    x = mid - half * np.cos(t)
    inside = (x > lo) & (x < hi)
    xs = snapshot(x)
    pdf = qc._marchenko_pastur_pdf(var, T, N, x)
    unchanged([x], xs, "_marchenko_pastur_pdf")
    ensure(np.shape(pdf) == x.shape, f"shape {np.shape(pdf)}")
    ensure(np.all(np.isfinite(pdf)) and np.all(pdf >= 0), "negative or undefined density")
    want = np.zeros(m)
    want[inside] = np.sqrt(np.maximum((hi - x[inside]) * (x[inside] - lo), 0)) / (2 * np.pi * var * y * x[inside])
    scale = np.max(want) if case["T"] != case["N"] else 1 / var
    core = slice(50, m - 50)
    same(pdf[core], want[core], "density", rtol=1e-7, atol=1e-9 * scale)
    if T != N and abs(y - 1) > 0.02:
        integral = np.trapezoid(pdf * half * np.sin(t), t)
        ensure(abs(integral - min(1.0, T / N)) < 2e-3, f"integrates to {integral}, expected {min(1.0, T / N)}")
    outside = np.array([lo * 0.9 - 1e-6, lo * 0.5 - 1e-6, -var, 0.0, hi * 1.0001, hi * 3, hi + 10])
    outside = outside[(outside < lo) | (outside > hi)]
    ensure(np.all(qc._marchenko_pastur_pdf(var, T, N, outside) == 0), "density outside the support")
    # scaling with the variance, order and dtype of the points do not matter
    one = qc._marchenko_pastur_pdf(1.0, T, N, x / var)
    same(pdf[core], one[core] / var, "scaling with the variance", rtol=1e-6, atol=1e-8 * scale)
    p = rng(case["seed"]).permutation(m)
    same(qc._marchenko_pastur_pdf(var, T, N, x[p]), pdf[p], "permuted points", rtol=0)
    ints = np.arange(0, max(2, int(hi) + 3))
    same(qc._marchenko_pastur_pdf(var, T, N, ints), qc._marchenko_pastur_pdf(var, T, N, ints.astype(float)), "integer points")
    # only the ratio of timesteps and assets matters
    same(qc._marchenko_pastur_pdf(var, 3 * T, 3 * N, x)[core], pdf[core], "same aspect ratio", rtol=1e-6, atol=1e-8 * scale)
    for bad in (0.0, -var):
        rejects(lambda: qc._marchenko_pastur_pdf(bad, T, N, x), (ValueError,), f"variance {bad}")
    ctx.label("T<N" if T < N else "T>=N")
    ctx.nontrivial(N > 1)


SUBS = [
    Sub("cov_cor", st.fixed_dictionaries(matrix), cov_test, quick=400),
    Sub("regularised", st.fixed_dictionaries(dict(
        n=st.integers(1, 8), seed=seeds(), reg=st.sampled_from([1e-6, 1e-4, 1e-2]),
        exps=st.lists(st.integers(-4, 5), min_size=1, max_size=6))), clip_test, quick=150),
    Sub("eigen", st.fixed_dictionaries(dict(matrix, k=st.integers(0, 100))), eig_test, quick=300),
    Sub("complete", st.fixed_dictionaries(dict(matrix, k=st.integers(0, 100), from_cor=st.booleans())), complete_test, quick=300),
    Sub("block", st.fixed_dictionaries(dict(
        sizes=st.lists(st.integers(1, 6), min_size=0, max_size=5),
        cors=st.lists(st.sampled_from([0.5, 0.2, -0.1, 0.0, 0.9, 1.0, -0.5, -0.9, -1.0]), min_size=5, max_size=5), array=st.booleans())), block_test, quick=200),
    Sub("random", st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 15), st.integers(16, 90)), seed=seeds(), positional=st.booleans())), random_test, quick=150),
    Sub("marchenko_pastur", st.fixed_dictionaries(dict(
        var=st.floats(0.05, 5), T=st.integers(1, 200), N=st.integers(1, 200), seed=seeds())), mp_test, quick=250),
]
