"""C13: OHLC volatility estimators equal their published formulas."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.feature.micro_structure as ms
from checks import featlib as fl
from checks import ohlc_ref as ref
from pbt.core import Sub, ensure

PROPERTY = "C13"
RULE = "the estimator is defined for at least one observation and not all prices are equal"
ASSUMPTIONS = [
    "values are compared up to rounding (1e-9 of the largest value of the estimator over the series)",
    "Yang-Zhang as documented by the project (uncentred overnight and close-to-previous-open terms, window > 1)",
]

EST = {
    "close_close_volatility": (ms.get_close_close_volatility, ("close",), ref.close_close),
    "high_low_volatility": (ms.get_high_low_volatility, ("high", "low"), ref.high_low),
    "garman_klass_volatility": (ms.get_garman_klass_volatility, ("high", "low", "open", "close"), ref.garman_klass),
    "rogers_satchell_volatility": (
        ms.get_rogers_satchell_volatility, ("high", "low", "open", "close"), ref.rogers_satchell),
    "yang_zhang_volatility": (ms.get_yang_zhang_volatility, ("high", "low", "open", "close"), ref.yang_zhang),
    "becker_parkinson_volatility": (ms.get_becker_parkinson_volatility, ("high", "low"), ref.becker_parkinson),
}
NON_NEGATIVE = ("close_close_volatility", "high_low_volatility", "rogers_satchell_volatility",
                "becker_parkinson_volatility", "yang_zhang_volatility")


def data(case):
    d = fl.make_data(case["spec"])
    if case["gaps"]:  # overnight jumps of whole bars
        r = np.random.default_rng(case["spec"]["seed"] + 17)
        f = np.exp(np.cumsum(0.05 * r.standard_normal(case["spec"]["n"])))
        for k in ("open", "high", "low", "close"):
            d[k] = d[k] * f
    if case["constant"]:
        for k in ("open", "high", "low", "close"):
            d[k] = np.full(case["spec"]["n"], float(d["close"][0]))
    return fl.punch(d, ("open", "high", "low", "close"), case["spec"], case["holes"])


def make_test(name):
    fn, roles, formula = EST[name]

    def test(case, ctx):
        d = data(case)
        w = case["params"]["window"]
        xs = [d[r] for r in roles]
        kw = {"p_" + r: (pd.Series(x) if case["container"] == "series" else x) for r, x in zip(roles, xs)}
        got = np.asarray(fn(window=w, **kw), dtype=float)
        want = formula(*xs, w)
        what = f"{name}(window={w})"
        fin = np.abs(want[np.isfinite(want)])
        top = max(fin.max() if len(fin) else 0.0, 0.0)
        # terms may cancel: errors are relative to the squared log range of the data
        terms = [fl.top_of(np.log(d["high"] / d["low"])) ** 2] + [fl.top_of(np.diff(np.log(x))) ** 2 for x in xs]
        unit = max([top] + terms)
        atol = 1e-12 * unit + 1e-18
        if name == "close_close_volatility":
            r = d["close"][1:] / d["close"][:-1]
            atol = 1e-12 * (fl.top_of(r) ** 2 + 1)
        if name == "becker_parkinson_volatility":  # roots
            fl.agree(got, want, what, rtol=1e-8, atol=1e-6 * unit**0.5)
            clear = want > 1e-3 * unit**0.5
            fl.agree(np.where(clear, got, 0), np.where(clear, want, 0), what, rtol=1e-8, atol=0)
        else:
            fl.agree(got, want, what, rtol=1e-8, atol=atol)
        if name in NON_NEGATIVE:
            ensure(np.all(np.isnan(got) | (got >= -atol)), f"{what}: negative")
        if case["constant"]:
            ensure(np.all(np.isnan(got) | (np.abs(got) <= 1e-14)), f"{what}: not zero for constant prices")
        m = case["factor"]
        alt = np.asarray(fn(window=w, **{k: v * m for k, v in kw.items()}), dtype=float)
        fl.agree(alt, got, f"{what} with all prices times {m}", rtol=1e-7,
                 atol=1e-5 * unit**0.5 if name.startswith("becker") else 1e-10 * unit + atol)
        ctx.nontrivial(len(fin) > 0 and not case["constant"])
        ctx.label("gaps" if case["gaps"] else "plain")
        ctx.label("missing values" if case["holes"] else "complete")

    return test


SUBS = [
    Sub(
        name,
        fl.case_strategy(
            fl.BY_NAME[name],
            container=st.sampled_from(["series", "array"]),
            gaps=st.booleans(),
            holes=st.sampled_from([False, False, True]),
            constant=st.sampled_from([False] * 9 + [True]),
            factor=st.sampled_from([0.001, 0.5, 2.0, 3.3, 1000.0, 1e-9, 1e9]),
        ),
        make_test(name),
        quick=400,
    )
    for name in EST
]
