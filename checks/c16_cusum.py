"""C16: the CUSUM structural-break test equals its definition."""

import numpy as np
from hypothesis import strategies as st

from checks import featlib as fl
from pbt.core import Sub, ensure, rng, seeds
from pbt.gen import make_positive
from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum

PROPERTY = "C16"
RULE = "at least three observations and a price change"
ASSUMPTIONS = [
    "points before the first price change are left out (0/0 in the definition)",
    "critical values are compared where the maximising start is unique (gap above 1e-9)",
]
KINDS = ("walk", "noise", "ties", "trend", "flat_runs", "jumps", "up", "down", "tiny", "big", "calm", "flat_start", "flat_start")


def brute(y):
    """Statistic, elapsed steps at the maximum, and margin over the runner-up."""
    n = len(y)
    x = np.log(y)
    S, k, margin = np.zeros(n), np.zeros(n, int), np.full(n, np.inf)
    for t in range(1, n):
        var = sum((x[i] - x[i - 1]) ** 2 for i in range(1, t + 1)) / t
        if var == 0:
            S[t] = np.nan
            continue
        gone = t - np.arange(t)
        vals = (x[t] - x[:t]) / (np.sqrt(var) * np.sqrt(gone))
        best = int(np.argmax(vals))
        S[t], k[t] = vals[best], gone[best]
        if t > 1:
            margin[t] = vals[best] - np.max(np.delete(vals, best))
    return S, k, margin


def prices(case):
    y = make_positive(case["spec"])
    if case["break"] and len(y) > 4:
        j = len(y) // 2
        y[j:] = y[j:] * np.exp(np.cumsum(np.full(len(y) - j, 0.05 * case["break"])))
    y = np.clip(y, 1e-8, 1e12)
    if case["quiet"] < 1:  # a pegged currency, a money market fund
        y = np.exp(case["quiet"] * (np.log(y) - np.log(y[0])))
    return y


def test(case, ctx):
    y = prices(case)
    n = len(y)
    S, crit = cusum(y)
    ensure(S.shape == (n,) and crit.shape == (n,), f"shapes {S.shape}, {crit.shape} for {n} observations")
    ensure(S[0] == 0 and crit[0] == 0, "not zero at the first observation")
    ref, k, margin = brute(y)
    ok = ~np.isnan(ref)
    fl.agree(np.where(ok, S, 0), np.where(ok, ref, 0), "statistic", rtol=1e-8, atol=1e-8)
    # 0/0 in the definition: as long as the price has never changed there is nothing to standardise with
    ensure(np.all(np.isnan(S[~ok])), f"statistic {S[~ok]} for prices that have not changed yet")
    sure = ok & (margin > 1e-9) & (np.arange(n) > 0)
    want = np.sqrt(4.6 + np.log(np.where(sure, k, 1)))
    fl.agree(np.where(sure, crit, 0), np.where(sure, want, 0), "critical value", rtol=1e-9)
    # every critical value belongs to some admissible start
    for t in range(1, n):
        if ok[t]:
            el = np.exp(crit[t] ** 2 - 4.6)
            ensure(abs(el - round(el)) < 1e-6 and 1 <= round(el) <= t, f"critical value {crit[t]} at {t} belongs to no start")
    ctx.nontrivial(n > 2 and len(set(y)) > 1)
    ctx.label(case["spec"]["kind"])
    m, g = case["factor"], case["power"]
    if len(set(y)) > 1 and np.abs(np.diff(np.log(y))).max() > 1e-6:
        far = ok & (np.arange(n) >= (np.argmax(np.abs(np.diff(np.log(y))) > 1e-6) + 1))
        S2, crit2 = cusum(y * m)
        fl.agree(np.where(far, S2, 0), np.where(far, S, 0), f"statistic with prices times {m}", rtol=1e-6, atol=1e-6)
        far2 = far & sure & (margin > 1e-5)
        fl.agree(np.where(far2, crit2, 0), np.where(far2, crit, 0), f"critical value with prices times {m}", rtol=1e-9)
        S3, _ = cusum(np.exp(np.log(y) * g))
        fl.agree(np.where(far, S3, 0), np.where(far, S, 0), f"statistic with log prices times {g}", rtol=1e-6, atol=1e-6)


SUBS = [
    Sub(
        "definition",
        st.fixed_dictionaries(
            {
                "spec": st.fixed_dictionaries(
                    {"n": st.one_of(st.integers(1, 12), st.integers(3, 40), st.integers(20, 120), st.integers(20, 120).map(lambda v: v if v % 12 else 4 * v + 60)), "seed": seeds(), "kind": st.sampled_from(KINDS)}
                ),
                "break": st.sampled_from([0, 0, 1, -1, 4]),
                "factor": st.sampled_from([0.01, 0.5, 2.0, 7.7, 100.0]),
                "quiet": st.sampled_from([1, 1, 1, 1e-3, 1e-6, 1e-8]),
                "power": st.sampled_from([0.5, 2.0, 1.3]),
            }
        ),
        test,
        quick=1200,
    )
]
