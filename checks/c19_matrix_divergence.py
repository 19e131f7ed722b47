"""C19: matrix divergences are true divergences."""

import numpy as np
from hypothesis import strategies as st

from quantfinlib.distance import log_det_divergence, von_neuman_divergence
from pbt.core import Sub, ensure, rejects, rng, same, seeds
from pbt.gen import snapshot, unchanged

PROPERTY = "C19"
RULE = "the two matrices differ (or the malformed one is not positive definite)"
ASSUMPTIONS = ["condition numbers up to about 1e4 per matrix; comparisons to 1e-7 of the size of the terms"]


def orthogonal(n, seed):
    q, r = np.linalg.qr(rng(seed).standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def spd(n, seed, kind):
    r = rng(seed)
    if kind == "diag":
        return np.diag(np.exp(r.uniform(-3, 3, n)))
    if kind == "cor":
        f = r.standard_normal((n, n + 2))
        c = f @ f.T + 0.2 * np.eye(n)
        s = np.sqrt(np.diag(c))
        return c / np.outer(s, s)
    if kind == "tiny":
        scale = 1e-4
    elif kind == "micro":  # variances of returns over short periods
        scale = 1e-10
    elif kind == "large":
        scale = 1e3
    else:
        scale = 1.0
    lam = np.exp(r.uniform(-3.5, 3.5, n)) * scale
    u = orthogonal(n, seed + 1)
    m = (u * lam) @ u.T
    return (m + m.T) / 2


def eig(m):
    w, u = np.linalg.eigh((m + m.T) / 2)
    return w, u


def ref_logdet(p, q):
    """From the eigenvalues of q^-1/2 p q^-1/2."""
    w, u = eig(q)
    s = (u / np.sqrt(w)) @ u.T
    lam = np.linalg.eigvalsh(s @ p @ s)
    return float(np.sum(lam - np.log(lam) - 1)), float(np.sum(np.abs(lam)) + np.sum(np.abs(np.log(lam))) + len(lam))


def ref_vn(p, q):
    """sum_i a_i ln a_i - sum_ij a_i <u_i,v_j>^2 ln b_j - tr p + tr q"""
    a, u = eig(p)
    b, v = eig(q)
    k = (u.T @ v) ** 2
    val = np.sum(a * np.log(a)) - a @ k @ np.log(b) - a.sum() + b.sum()
    size = np.sum(np.abs(a * np.log(a))) + a @ k @ np.abs(np.log(b)) + a.sum() + b.sum()
    return float(val), float(size)


def num(x, what):
    x = complex(x)
    ensure(abs(x.imag) <= 1e-8 * (1 + abs(x.real)), f"{what}: complex {x}")
    return x.real


def test(case, ctx):
    n = case["n"]
    p = spd(n, case["seed"], case["kp"])
    q = p.copy() if case["equal"] else spd(n, case["seed2"], case["kq"])
    snaps = snapshot(p, q)
    ld = num(log_det_divergence(p, q), "log-det")
    vn = num(von_neuman_divergence(p, q), "von Neumann")
    unchanged([p, q], snaps, "matrix divergence")
    rl, sl = ref_logdet(p, q)
    rv, sv = ref_vn(p, q)
    tl, tv = 1e-8 * sl, 1e-8 * sv
    same(ld, rl, "log-det divergence", rtol=1e-8, atol=tl)
    same(vn, rv, "von Neumann divergence", rtol=1e-8, atol=tv)
    ensure(ld >= -tl, f"log-det divergence negative: {ld}")
    ensure(vn >= -tv, f"von Neumann divergence negative: {vn}")
    same(num(log_det_divergence(p, p), ""), 0.0, "log-det of equal matrices", atol=1e-8 * n)
    same(num(von_neuman_divergence(q, q), ""), 0.0, "von Neumann of equal matrices", atol=tv)
    if not np.allclose(p, q, rtol=1e-3, atol=0):
        ensure(ld > 0 and vn > 0, f"not positive for different matrices: {ld}, {vn}")
        ctx.nontrivial()
    if case["kp"] == case["kq"] == "diag" and not case["equal"]:
        a, b = np.diag(p), np.diag(q)
        same(ld, np.sum(a / b - np.log(a / b) - 1), "log-det of diagonal matrices", rtol=1e-8, atol=tl)
        same(vn, np.sum(a * np.log(a / b) - a + b), "von Neumann of diagonal matrices", rtol=1e-8, atol=tv)
        ctx.label("diagonal")
    u = orthogonal(n, case["seed"] + 5)

    def sym(m):
        return (m + m.T) / 2

    pu, qu = sym(u @ p @ u.T), sym(u @ q @ u.T)
    same(num(log_det_divergence(pu, qu), ""), ld, "log-det in another basis", rtol=1e-6, atol=100 * tl)
    same(num(von_neuman_divergence(pu, qu), ""), vn, "von Neumann in another basis", rtol=1e-6, atol=100 * tv)
    m = u @ np.diag(np.exp(rng(case["seed"] + 6).uniform(-1, 1, n)))
    same(num(log_det_divergence(sym(m @ p @ m.T), sym(m @ q @ m.T)), ""), ld, "log-det under congruence", rtol=1e-6, atol=1000 * tl)
    k = case["k"]
    same(num(log_det_divergence(k * p, k * q), ""), ld, f"log-det of {k} times both", rtol=1e-7, atol=100 * tl)
    same(num(von_neuman_divergence(k * p, k * q), ""), k * vn, f"von Neumann of {k} times both", rtol=1e-7,
         atol=100 * k * 1e-8 * (sv + abs(np.log(k)) * (np.trace(p) + np.trace(q))))
    # transposition of roles: the log-det divergence of inverses
    same(num(log_det_divergence(sym(np.linalg.inv(q)), sym(np.linalg.inv(p))), ""), ld, "log-det of exchanged inverses",
         rtol=1e-6, atol=1000 * tl)
    ctx.label(case["kp"], f"dim{n}")


def malformed(case, ctx):
    n = case["n"]
    good = spd(n, case["seed"], "plain")
    r = rng(case["seed2"])
    lam = np.exp(r.uniform(-1, 1, n))
    j = case["j"] % n
    if case["bad"] == "zero":
        lam[:] = np.exp(r.uniform(-1, 1, n))
        bad = np.diag(lam)
        bad[j, j] = 0.0
    else:
        lam[j] = -np.exp(r.uniform(-3, 1))
        u = orthogonal(n, case["seed2"])
        bad = (u * lam) @ u.T
        bad = (bad + bad.T) / 2
        if case["bad"] == "all":
            bad = -good
    for fn in (log_det_divergence, von_neuman_divergence):
        args = (bad, good) if case["first"] else (good, bad)
        rejects(lambda: fn(*args), (AssertionError, ValueError), f"{fn.__name__}: {case['bad']} eigenvalue")
    ctx.nontrivial()
    ctx.label(case["bad"])


KINDS = ["plain", "plain", "diag", "cor", "tiny", "micro", "large"]
SUBS = [
    Sub(
        "divergence",
        st.fixed_dictionaries(
            {
                "n": st.integers(1, 7),
                "seed": seeds(),
                "seed2": seeds(),
                "kp": st.sampled_from(KINDS),
                "kq": st.sampled_from(KINDS),
                "equal": st.sampled_from([False] * 9 + [True]),
                "k": st.sampled_from([0.01, 0.5, 2.0, 30.0]),
            }
        ),
        test,
        quick=700,
    ),
    Sub(
        "large",
        st.fixed_dictionaries(
            {
                "n": st.integers(8, 48),
                "seed": seeds(),
                "seed2": seeds(),
                "kp": st.sampled_from(KINDS),
                "kq": st.sampled_from(KINDS),
                "equal": st.sampled_from([False] * 9 + [True]),
                "k": st.sampled_from([0.01, 0.5, 2.0, 30.0]),
            }
        ),
        test,
        quick=120,
    ),
    Sub(
        "diagonal",
        st.fixed_dictionaries(
            {"n": st.integers(1, 7), "seed": seeds(), "seed2": seeds(), "kp": st.just("diag"), "kq": st.just("diag"),
             "equal": st.just(False), "k": st.sampled_from([0.5, 2.0])}
        ),
        test,
        quick=120,
    ),
    Sub(
        "malformed",
        st.fixed_dictionaries(
            {"n": st.integers(1, 6), "seed": seeds(), "seed2": seeds(), "j": st.integers(0, 5),
             "bad": st.sampled_from(["one", "zero", "all"]), "first": st.booleans()}
        ),
        malformed,
        quick=200,
    ),
]
