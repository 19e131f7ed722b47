"""C24: denoising keeps signal and variances and returns a valid matrix."""

import numpy as np
from hypothesis import strategies as st

from quantfinlib.math import cov as qc
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import snapshot, unchanged

PROPERTY = "C24"
RULE = "at least one noise eigenvalue replaced and at least one kept, or more assets than observations"
ASSUMPTIONS = [
    "the matrix is a sample correlation of (at most) the stated number of observations",
    "the variance is the likelihood maximiser within the library's documented search (0.01 to 4), up to its grid spacing: "
    "compared through the likelihood it reaches, not through its value; eigenvalues outside the support count with "
    "density 1/largest",
    "a number of kept eigenvalues that cuts between (nearly) equal eigenvalues is not compared eigenvector by eigenvector",
]


def sample_cor(case):
    """A sample correlation with ``f`` common factors."""
    n, T, f = case["n"], case["T"], case["f"]
    r = rng(case["seed"])
    x = r.standard_normal((T, n))
    for _ in range(f):
        x += r.standard_normal((T, 1)) * r.uniform(-2, 2, n)
    c = np.corrcoef(x, rowvar=False).reshape(n, n)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


def eigs_desc(c):
    w, u = np.linalg.eigh(c)
    return w[::-1], u[:, ::-1]


def density(var, T, N, x):
    y = N / T
    lo, hi = var * (1 - y**0.5) ** 2, var * (1 + y**0.5) ** 2
    out = np.zeros(len(x))
    m = (x > lo) & (x < hi)
    out[m] = np.sqrt((hi - x[m]) * (x[m] - lo)) / (2 * np.pi * var * y * x[m])
    return out


def loglik(var, T, N, x):
    p = density(var, T, N, x)
    p = np.where(p > 0, p, 1 / np.max(x))
    return float(np.sum(np.log(p)))


def edge(var, T, N):
    return var * (1 + (N / T) ** 0.5) ** 2


def check_var(var, T, N, x, what):
    """The variance reaches the maximum of the likelihood over the search range."""
    ensure(0 < var <= 4 + 1e-9, f"{what}: variance {var}")
    best = max(loglik(v, T, N, x) for v in np.linspace(0.01, 4, 1000))
    got = loglik(var, T, N, x)
    ensure(got >= best - 1e-6 * (1 + abs(best)), f"{what}: variance {var} has log-likelihood {got}, {best} is reachable")


def reference(c, k):
    w, u = eigs_desc(c)
    w = w.copy()
    if k < len(w):
        w[k:] = np.mean(w[k:])
    m = (u * w) @ u.T
    m = np.clip(m, -1, 1)
    np.fill_diagonal(m, 1.0)
    return m


def gap_ok(w, k):
    return k <= 0 or k >= len(w) or w[k - 1] - w[k] > 1e-6


def valid_cor(m, n, what):
    ensure(np.shape(m) == (n, n), f"{what}: shape {np.shape(m)}")
    ensure(np.all(np.isfinite(m)), f"{what}: not finite")
    same(m, m.T, what + ": symmetry", rtol=0, atol=1e-10)
    same(np.diag(m), np.ones(n), what + ": diagonal", rtol=1e-10)
    ensure(np.all(np.abs(m) <= 1 + 1e-10), f"{what}: outside [-1, 1]")
    w = np.linalg.eigvalsh(m)
    ensure(w[0] > -1e-8 * n, f"{what}: smallest eigenvalue {w[0]}")


def check_info(info, w, T, what):
    """The information is consistent with itself and with the eigenvalues. Returns k."""
    n = len(w)
    ensure(info.get("fitted") is True or info.get("fitted") == True, f"{what}: {info}")  # noqa: E712
    same(info["max_noise"], edge(info["var"], T, n), what + ": upper edge", rtol=1e-9)
    k = int(info["k"])
    lower = int(np.sum(w >= info["max_noise"] * (1 + 1e-9)))
    upper = int(np.sum(w >= info["max_noise"] * (1 - 1e-9)))
    ensure(lower <= k <= upper, f"{what}: k={k}, but {lower} eigenvalues are above {info['max_noise']}")
    x = w[:T] if n > T else w
    if np.min(x) > 1e-12:  # eigenvalues that are zero up to rounding are not samples of the continuous density
        check_var(info["var"], T, n, x, what)
    return k


def call(fn, case, *args, **kw):
    snaps = snapshot(*args)
    out = fn(*args, **kw)
    unchanged(list(args), snaps, fn.__name__)
    return out


def fit_test(case, ctx):
    n, T = case["n"], case["T"]
    c = sample_cor(case)
    w, u = eigs_desc(c)
    d, _, info = call(qc._cor_denoise, case, c, T)
    valid_cor(d, n, "denoised correlation")
    k = check_info(info, w, T, "denoising")
    if gap_ok(w, k):
        same(d, reference(c, k), "denoised correlation", atol=1e-8)
    # scaling back to covariances
    std = np.exp(rng(case["seed"] + 5).uniform(-9 if case["seed"] % 2 else -2, 2, n))
    cov = c * np.outer(std, std)
    dc, cinfo = call(qc._cov_denoise, case, cov, T)
    same(np.diag(dc), np.diag(cov), "variances", rtol=1e-9)
    ck = int(cinfo["k"])
    if gap_ok(w, ck):
        same(dc, reference(c, ck) * np.outer(std, std), "denoised covariance", rtol=1e-6, atol=1e-7 * np.outer(std, std))
    same(np.asarray(dc), np.asarray(dc).T, "covariance symmetry", rtol=1e-9, atol=1e-10 * np.outer(std, std))
    # repeated and interleaved calls
    again, _, info2 = qc._cor_denoise(c, T)
    same(again, d, "second call", rtol=0, atol=0)
    ensure(info2 == info, f"information of the second call: {info2} != {info}")
    ctx.label("T<N" if T < n else "T>=N", f"k={'0' if k == 0 else 'some' if k < n else 'all'}")
    ctx.nontrivial(0 < k < n or T < n)


def k_test(case, ctx):
    n, T = case["n"], case["T"]
    c = sample_cor(case)
    k = 1 + case["k"] % n
    w, u = eigs_desc(c)
    d, vecs, info = call(qc._cor_denoise, case, c, T, k=k)
    valid_cor(d, n, f"denoised correlation (k={k})")
    ensure(not info["fitted"] and info["k"] == k, f"information {info}")
    ensure(np.shape(vecs) == (n, n), f"eigenvectors {np.shape(vecs)}")
    same(vecs.T @ vecs, np.eye(n), "orthonormal eigenvectors", atol=1e-8)
    if gap_ok(w, k):
        same(d, reference(c, k), f"denoised correlation (k={k})", atol=1e-8)
        same(vecs[:, :k] @ vecs[:, :k].T, u[:, :k] @ u[:, :k].T, "signal space", atol=1e-5)
    if k == n:
        same(d, c, "k = number of assets keeps everything", atol=1e-9 * n)
    if k == 1 or gap_ok(w, k):
        std = np.exp(rng(case["seed"] + 5).uniform(-9 if case["seed"] % 2 else -2, 2, n))
        cov = c * np.outer(std, std)
        dc, cinfo = call(qc._cov_denoise, case, cov, T, k=k)
        ensure(not cinfo["fitted"] and cinfo["k"] == k, f"information {cinfo}")
        same(np.diag(dc), np.diag(cov), "variances", rtol=1e-9)
        if gap_ok(w, k):
            same(dc, reference(c, k) * np.outer(std, std), "denoised covariance", rtol=1e-6, atol=1e-7 * np.outer(std, std))
    ctx.nontrivial(k < n)


def values_test(case, ctx):
    """The eigenvalue step on its own."""
    n, T = case["n"], case["T"]
    c = sample_cor(case)
    w = np.maximum(eigs_desc(c)[0], 0)
    full = w.copy()
    if n > T:  # only as many eigenvalues as observations count; the caller's list is not touched
        w[T:] = 0.0
        if case["seed"] % 3:
            r = rng(case["seed"])
            if case["seed"] % 3 == 1:
                full = np.sort(r.dirichlet(np.ones(n)) * n)[::-1].copy()
            else:  # all within the support of a noise law
                lo, hi = (1 - (n / T) ** 0.5) ** 2, edge(1.0, T, n)
                full = np.sort(r.uniform(lo + 1e-3, hi, n))[::-1].copy()
            w = np.where(np.arange(n) < T, full, 0.0)
    v, info = call(qc._eigen_values_denoise, case, full, T)
    k = check_info(info, w, T, "eigenvalues")
    want = w.copy()
    want[k:] = np.mean(w[k:]) if k < n else 0
    same(v, want, "denoised eigenvalues", rtol=1e-9, atol=1e-12)
    ensure(abs(np.sum(v) - np.sum(w)) < 1e-9 * n, f"trace {np.sum(v)} instead of {np.sum(w)}")
    k2 = case["k"] % (n + 1)
    v, info = call(qc._eigen_values_denoise, case, full, T, k=k2)
    ensure(not info["fitted"] and info["k"] == k2, f"information {info}")
    want = w.copy()
    want[k2:] = np.mean(w[k2:]) if k2 < n else 0
    same(v, want, f"denoised eigenvalues (k={k2})", rtol=1e-9, atol=1e-12)
    whole = np.round(full * 3).astype(int)  # multiples of eigenvalues, as whole numbers
    got, _ = call(qc._eigen_values_denoise, case, whole, T, k=k2)
    want = np.where(np.arange(n) >= T, 0.0, whole) if n > T else whole.astype(float)
    want[k2:] = np.mean(want[k2:]) if k2 < n else 0
    same(got, want, f"denoised whole eigenvalues (k={k2})", rtol=1e-9, atol=1e-12)
    ctx.nontrivial(0 < k < n or n > T)


def wide_test(case, ctx):
    """More assets than observations: exactly as many eigenvalues as observations count."""
    T, n, s2 = case["T"], case["T"] + case["more"], case["s2"]
    r = rng(case["seed"])
    lo, hi = s2 * (1 - (n / T) ** 0.5) ** 2, edge(s2, T, n)
    w = np.sort(r.uniform(lo + 1e-3, hi, n) * np.where(r.random(n) < 0.2, 3, 1))[::-1].copy()
    v, info = call(qc._eigen_values_denoise, case, w, T)
    check_var(info["var"], T, n, w[:T], "wide")
    kept = np.where(np.arange(n) < T, w, 0.0)
    k = check_info(info, kept, T, "wide")
    want = kept.copy()
    want[k:] = np.mean(kept[k:]) if k < n else 0
    same(v, want, "denoised eigenvalues", rtol=1e-9, atol=1e-12)
    ctx.nontrivial()


def mp_fit_test(case, ctx):
    """The fitted variance maximises the likelihood for any eigenvalues, in any order."""
    n, T, s2 = case["n"], case["T"], case["s2"]
    r = rng(case["seed"])
    m = min(n, T)
    lo, hi = s2 * (1 - (n / T) ** 0.5) ** 2, edge(s2, T, n)
    w = r.uniform(lo + 1e-3, hi, m)
    w[: case["f"]] = hi * r.uniform(1, 6, len(w[: case["f"]]))
    w = np.sort(w)[::-1].copy()
    var = call(qc._marchenko_pastur_fit, case, T, n, w)
    check_var(var, T, n, w, "fit")
    # the order of the eigenvalues does not matter
    p = r.permutation(m)
    var2 = qc._marchenko_pastur_fit(T, n, w[p])
    ensure(abs(loglik(var2, T, n, w) - loglik(var, T, n, w)) < 1e-6 * m, f"order matters: {var2} instead of {var}")
    ctx.label("T<N" if T < n else "T>=N")
    ctx.nontrivial(n > 2)


def bad_test(case, ctx):
    c = sample_cor(dict(case, n=case["n"] + 1))
    for k in (None, 1):
        rejects(lambda: qc._cor_denoise(c[:, :-1], case["T"], k=k), (ValueError,), "non-square matrix")
        rejects(lambda: qc._cor_denoise(c[0], case["T"], k=k), (ValueError,), "vector")
        rejects(lambda: qc._cor_denoise(c.tolist(), case["T"], k=k), (TypeError,), "list")
        rejects(lambda: qc._cov_denoise(c.tolist(), case["T"], k=k), (TypeError,), "covariance list")
    rejects(lambda: qc._marchenko_pastur_fit(case["T"], 3, [1.0, 2.0, 0.5]), (ValueError,), "list of eigenvalues")
    ctx.nontrivial()


base = dict(n=st.integers(2, 14), T=st.integers(4, 80), f=st.integers(0, 3), seed=seeds())
wide = st.one_of(st.fixed_dictionaries(base), st.fixed_dictionaries(dict(
    n=st.integers(30, 70), T=st.integers(60, 400), f=st.integers(4, 18), seed=seeds())))
SUBS = [
    Sub("fitted", wide, fit_test, quick=60),
    Sub("fixed_k", st.fixed_dictionaries(dict(base, k=st.integers(0, 100))), k_test, quick=300),
    Sub("eigenvalues", st.fixed_dictionaries(dict(base, k=st.integers(0, 100))), values_test, quick=60),
    Sub("wide", st.fixed_dictionaries(dict(
        T=st.integers(2, 25), more=st.integers(1, 20), s2=st.floats(0.1, 1.5), seed=seeds())), wide_test, quick=80),
    Sub("noise_law", st.fixed_dictionaries(dict(
        n=st.integers(2, 60), T=st.integers(2, 120), s2=st.floats(0.1, 3), f=st.integers(0, 4), seed=seeds())), mp_fit_test, quick=50),
    Sub("malformed", st.fixed_dictionaries(base), bad_test, quick=30),
]
