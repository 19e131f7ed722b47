"""C15: price-impact and informed-trading measures equal their definitions."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import betainc

import quantfinlib.feature.micro_structure as ms
from checks import featlib as fl
from checks import ohlc_ref as ref
from pbt.core import Sub, ensure, rng, seeds
from pbt.gen import make_index

PROPERTY = "C15"
RULE = "the measure is defined for at least one compared observation and volumes and prices vary"
ASSUMPTIONS = [
    "Amihud directly after a missing price in between others (the return is over the gap or missing) is outside the claim",
    "volumes and prices are positive",
]

LAMBDAS = {
    "kyle": (ms.get_kyle_lambda, ref.kyle, 10),
    "amihud": (ms.get_amihud_lambda, ref.amihud, 10),
    "hasbrouck": (ms.get_hasbrouck_lambda, ref.hasbrouck, 20),
}


def wrap(x, case):
    return pd.Series(x, index=make_index(case["index"], len(x), 5)) if case["container"] == "series" else x


def data(case, *roles):
    return fl.punch(fl.make_data(case["spec"]), roles, case["spec"], case["holes"])


def lambda_test(name):
    fn, formula, default = LAMBDAS[name]

    def test(case, ctx):
        d = data(case, "close", "volume")
        c, v = d["close"], d["volume"]
        kw = fl.given_params(case["params"])
        w = kw.get("window", default)
        got = np.asarray(fn(wrap(c, case), wrap(v, case), **kw), dtype=float)
        want = formula(c, v, w)
        still = np.r_[False, np.diff(c) == 0]
        tainted = np.array([still[max(0, t - w + 1) : t + 1].any() for t in range(len(c))])
        skip = np.zeros(len(c), dtype=bool)
        if name == "amihud":
            tainted[:] = False
            after = np.r_[False, np.isnan(c[:-1]) & (np.cumsum(~np.isnan(c[:-1])) > 0)]  # a gap, not before the first price
            skip = np.array([after[max(0, t - w + 1) : t + 1].any() for t in range(len(c))])
        what = f"{name}(window={w})"
        fin = want[np.isfinite(want)]
        atol = 1e-12 * (fin.max() if len(fin) else 0)
        ensure(got.shape == want.shape, f"{what}: shape {got.shape}")
        # changes of the price far below its size are only as exact as the price is represented
        steps = np.abs(np.diff(c))
        steps = steps[steps > 0]
        rounding = 16 * np.finfo(float).eps * np.nanmax(np.abs(c)) / steps.min() if len(steps) else 0.0
        # 0/0 in the definition: there is no sign of an unchanged price, so no value for a window with one
        ensure(np.all(np.isnan(got[tainted])), f"{what}: defined over a window with an unchanged price")
        ok = ~tainted & ~skip
        fl.agree(np.where(ok, got, 0), np.where(ok, want, 0), what, rtol=max(1e-8, rounding), atol=atol)
        ensure(np.all(np.isnan(got) | (got >= -atol) | tainted), f"{what}: negative")
        m, k = case["factor"], case["vfactor"]
        alt = np.asarray(fn(wrap(c * m, case), wrap(v * k, case), **kw), dtype=float)
        back = {"kyle": k / m, "amihud": k * m, "hasbrouck": np.sqrt(k * m)}[name]
        fl.agree(np.where(ok, alt * back, 0), np.where(ok, got, 0), f"{what} with price times {m}, volume times {k}",
                 rtol=max(1e-7, rounding), atol=10 * atol)
        ctx.nontrivial((np.isfinite(want) & ok).any())
        ctx.label("unchanged price" if still.any() else "all changed")

    return test


def vpin_test(case, ctx):
    d = data(case, "volume", "buy")
    v, buy = d["volume"], d["buy"]
    w = case["params"]["window"]
    got = np.asarray(ms.get_vpin(wrap(v, case), wrap(buy, case), window=w), dtype=float)
    what = f"vpin(window={w})"
    fl.agree(got, ref.vpin(v, buy, w), what, rtol=1e-9, atol=1e-12)
    ensure(np.all(np.isnan(got) | ((got >= -1e-12) & (got <= 1 + 1e-12))), f"{what}: outside 0..1")
    alt = np.asarray(ms.get_vpin(wrap(v, case), wrap(v - buy, case), w), dtype=float)
    fl.agree(alt, got, f"{what} with buys and sells exchanged", rtol=1e-9, atol=1e-12)
    k = case["vfactor"]
    alt = np.asarray(ms.get_vpin(wrap(v * k, case), wrap(buy * k, case), w), dtype=float)
    fl.agree(alt, got, f"{what} with volumes times {k}", rtol=1e-9, atol=1e-12)
    ctx.nontrivial(np.isfinite(got).any())


def student(z, df=0.25):
    tail = 0.5 * betainc(df / 2, 0.5, df / (df + z * z))
    return np.where(z > 0, 1 - tail, tail)


def buy_test(case, ctx):
    d = data(case, "close", "volume", "sigma")
    c, v, s = d["close"], d["volume"], d["sigma"]
    if case["huge"]:
        s = s * 1e-6
    got = np.asarray(ms.estimate_buy_volume(wrap(c, case), wrap(v, case), wrap(s, case)), dtype=float)
    ensure(got.shape == c.shape, f"buy volume: shape {got.shape}")
    ensure(np.isnan(got[0]), "buy volume: defined for the first observation")
    dz = np.diff(c) / s[1:]
    fl.agree(got[1:], v[1:] * student(dz), "buy volume", rtol=1e-7, atol=0)
    there = ~np.isnan(dz * v[1:])
    ensure(np.array_equal(np.isnan(got[1:]), ~there), "buy volume: defined elsewhere than its data")
    ensure(np.all(((got[1:] >= 0) & (got[1:] <= v[1:]))[there]), "buy volume: outside 0..volume")
    still = (np.diff(c) == 0) & there
    fl.agree(got[1:][still], v[1:][still] / 2, "buy volume of an unchanged price", rtol=1e-12)
    order = np.argsort(dz[there], kind="stable")
    share = (got[1:] / v[1:])[there][order]
    ensure(np.all(np.diff(share) >= -1e-12), "buy share decreases with the price change")
    # mirrored prices: buys become sells
    alt = np.asarray(ms.estimate_buy_volume(wrap(-c, case), wrap(v, case), wrap(s, case)), dtype=float)
    fl.agree(alt[1:] + got[1:], np.where(there, v[1:], np.nan), "buy volume plus that of mirrored prices", rtol=1e-9)
    # in VPIN
    ctx.nontrivial(len(c) > 2)
    ctx.label("ties" if still.any() else "moves")


common = dict(
    holes=st.sampled_from([False, False, True]),
    container=st.sampled_from(["series", "array"]),
    index=st.sampled_from(["range", "dates", "strings", "dups"]),
    factor=st.sampled_from([0.001, 0.5, 2.0, 3.3, 1000.0, 1e-9, 1e9]),
    vfactor=st.sampled_from([0.1, 4.0, 1000.0, 1e-9, 1e9]),
)
SUBS = [
    Sub(name, fl.case_strategy(fl.BY_NAME[name + "_lambda"], **common), lambda_test(name), quick=600) for name in LAMBDAS
] + [
    Sub("vpin", fl.case_strategy(fl.BY_NAME["vpin"], min_n=1, **common), vpin_test, quick=500),
    Sub("buy_volume", fl.case_strategy(fl.BY_NAME["estimate_buy_volume"], huge=st.sampled_from([False, False, True]), **common),
        buy_test, quick=500),
]
