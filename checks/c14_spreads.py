"""C14: spread estimators equal their published formulas."""

import numpy as np
import pandas as pd
import joblib
from hypothesis import strategies as st

import quantfinlib.feature.micro_structure as ms
from checks import featlib as fl
from checks import ohlc_ref as ref
from pbt.core import Sub, ensure, seeds
from pbt.gen import make_index

PROPERTY = "C14"
RULE = "the estimator is defined for at least one observation; for EDGE at least one window is numerically well posed"
ASSUMPTIONS = [
    "values are compared up to rounding; EDGE windows whose two moment conditions have no variance are left out",
    "EDGE runs on joblib's sequential and threading back ends, and on its process pool in a few cases",
]


def rets(c):
    return fl.top_of(np.diff(np.log(c)))


def data(case):
    d = fl.make_data(case["spec"])
    return fl.punch(d, ("open", "high", "low", "close", "volume"), case["spec"], case["holes"])


def wrap(x, case):
    return pd.Series(x, index=make_index(case["index"], len(x), 5)) if case["container"] == "series" else x


def corwin_schultz(case, ctx):
    d = data(case)
    w = case["params"]["window"]
    h, l = d["high"], d["low"]
    got = np.asarray(ms.get_cowrin_schultz_spread(wrap(h, case), wrap(l, case), window=w), dtype=float)
    want = ref.corwin_schultz(h, l, w)
    unit = fl.top_of(np.log(h / l)) + rets(h)
    what = f"corwin-schultz(window={w})"
    fl.agree(got, want, what, rtol=1e-8, atol=1e-6 * unit)
    clear = want > 1e-3 * unit
    fl.agree(np.where(clear, got, 0), np.where(clear, want, 0), what, rtol=1e-6, atol=0)
    ensure(np.all(np.isnan(got) | ((got >= 0) & (got <= 2))), f"{what}: outside 0..2")
    m = case["factor"]
    alt = np.asarray(ms.get_cowrin_schultz_spread(wrap(h * m, case), wrap(l * m, case), w), dtype=float)
    fl.agree(alt, got, f"{what} with prices times {m}", rtol=1e-6, atol=1e-5 * unit)
    ctx.nontrivial(np.isfinite(want).any())
    ctx.label("positive" if clear.any() else "zero")


def edge(case, ctx):
    d = data(case)
    w, sign = case["params"]["window"], case["sign"]
    kw = {"p_" + k: wrap(d[k], case) for k in ("high", "low", "open", "close")}
    if sign is not None:
        kw["sign"] = sign

    def run(args):
        if case["backend"] == "processes":
            with joblib.parallel_config(backend="loky", n_jobs=2):
                return np.asarray(ms.get_edge_spread(window=w, **args), dtype=float)
        with joblib.parallel_config(backend=case["backend"]):
            return np.asarray(ms.get_edge_spread(window=w, **args), dtype=float)

    got = run(kw)
    s2 = ref.edge(d["high"], d["low"], d["open"], d["close"], w)
    skip = np.isinf(s2)
    what = f"edge(window={w}, sign={sign})"
    unit = fl.top_of(np.log(d["high"] / d["low"])) + rets(d["close"]) + rets(d["open"])
    want = np.where(skip, 0, np.sqrt(np.abs(s2)) * (np.where(s2 < 0, -1.0, 1.0) if sign else 1.0))

    def sq(a):
        return np.where(skip, 0, np.sign(a) * a * a)

    fl.agree(sq(got), sq(want), what + " (signed square)", rtol=1e-6, atol=1e-9 * unit**2)
    if not sign:
        ensure(np.all(np.isnan(got) | (got >= 0)), f"{what}: negative")
    else:
        plain = run({**kw, "sign": False})
        fl.agree(np.where(skip, 0, np.abs(got)), np.where(skip, 0, plain), f"{what}: size differs from unsigned")
    m = 2.0 ** case["power"]
    alt = run({k: (v * m if k != "sign" else v) for k, v in kw.items()})
    fl.agree(sq(alt), sq(got), f"{what} with prices times {m}", rtol=1e-6, atol=1e-9 * unit**2)
    ctx.nontrivial(np.any(np.isfinite(s2)))
    ctx.label(case["backend"])
    if np.any(s2[np.isfinite(s2)] < 0):
        ctx.label("negative estimate")
    if np.isnan(s2[w - 1 :]).any():
        ctx.label("undefined window")


def roll(case, ctx):
    d = data(case)
    w = case["params"]["window"]
    c, v = d["close"], d["volume"]
    got = np.asarray(ms.get_roll_measure(wrap(c, case), window=w), dtype=float)
    cov = ref.roll_cov(c, w)
    unit = rets(c)
    what = f"roll(window={w})"
    fl.agree(got**2, 4 * np.abs(cov), what + " squared", rtol=1e-7, atol=1e-11 * unit**2 + 1e-22)
    ensure(np.all(np.isnan(got) | (got >= 0)), f"{what}: negative")
    imp = np.asarray(ms.get_roll_impact(wrap(c, case), wrap(v, case), window=w), dtype=float)
    # a return is known to about 4e-16; a covariance has to stand well clear of that to be compared after scaling
    clear = (got > 1e-4 * unit) & (got**2 > 4e-9 * unit) & ~np.isnan(c * v)
    fl.agree(np.where(clear, imp * v * c, 0), np.where(clear, 2 * np.sqrt(np.abs(cov)), 0), f"roll impact(window={w})",
             rtol=1e-6, atol=0)
    ensure(np.array_equal(np.isnan(imp), np.isnan(cov) | np.isnan(c) | np.isnan(v)), f"roll impact(window={w}): defined elsewhere than the measure")
    m, k = case["factor"], case["vfactor"]
    alt = np.asarray(ms.get_roll_measure(wrap(c * m, case), w), dtype=float)
    fl.agree(alt**2, got**2, f"{what} with prices times {m}", rtol=1e-6, atol=1e-10 * unit**2 + 1e-14 * unit + 1e-20)
    alt = np.asarray(ms.get_roll_impact(wrap(c * m, case), wrap(v * k, case), w), dtype=float)
    fl.agree(np.where(clear, alt * m * k, 0), np.where(clear, imp, 0), f"roll impact with prices times {m}, volume times {k}",
             rtol=1e-5, atol=0)
    ctx.nontrivial(clear.any())


common = dict(
    holes=st.sampled_from([False, False, True]),
    container=st.sampled_from(["series", "array"]),
    index=st.sampled_from(["range", "dates", "strings", "dups", "shuffled"]),
    factor=st.sampled_from([0.001, 0.5, 2.0, 3.3, 1000.0, 1e-9, 1e9]),
)
SUBS = [
    Sub("corwin_schultz", fl.case_strategy(fl.BY_NAME["cowrin_schultz_spread"], **common), corwin_schultz, quick=500),
    Sub(
        "edge",
        fl.case_strategy(
            fl.BY_NAME["edge_spread"],
            sign=st.sampled_from([None, False, True, True, 1]),
            backend=st.sampled_from(["sequential"] * 5 + ["threading"]),
            power=st.integers(-10, 10),
            **common,
        ),
        edge,
        quick=450,
    ),
    Sub(
        "edge_processes",
        fl.case_strategy(
            fl.BY_NAME["edge_spread"],
            sign=st.sampled_from([False, True]),
            backend=st.just("processes"),
            power=st.just(0),
            **common,
        ),
        edge,
        quick=3,
        weight=0.5,
    ),
    Sub(
        "roll",
        fl.case_strategy(fl.BY_NAME["roll_impact"], vfactor=st.sampled_from([0.1, 4.0, 1000.0, 1e-9, 1e9]), **common),
        roll,
        quick=500,
    ),
]
