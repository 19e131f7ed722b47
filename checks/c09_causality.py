"""C09: no feature looks into the future (and rolling ones not past their look-back)."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import featlib as fl
from pbt.core import Sub, ensure, rng, seeds
from pbt.gen import make_positive
from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum

PROPERTY = "C09"
RULE = (
    "the feature is defined (not NaN) for at least one compared time t, and the data after t (or before the look-back) "
    "really differ between the two computations"
)
ASSUMPTIONS = [
    "values are compared up to rounding (relative 1e-7 of the size of the feature)",
    "EDGE windows are computed in-process instead of on a process pool",
]

MODES = ("prefix", "other", "scale", "nan", "spike", "lookback")


def changed_future(data, other, cut, mode, seed):
    """The same data up to (not including) position cut, something else from there on."""
    r = rng(seed)
    out = {}
    for role, x in data.items():
        y = np.array(x, dtype=float)
        if mode == "other":
            k = min(len(y) - cut, len(other[role]))
            y[cut : cut + k] = other[role][:k]
        elif mode == "scale":
            y[cut:] = y[cut:] * 3.0
        elif mode == "nan":
            gone = r.uniform(size=len(y) - cut) < 0.5
            gone[:1] = True
            y[cut:][gone] = np.nan
        elif mode == "spike":
            y[cut] = y[cut] * 50
        out[role] = y
    if mode == "other":  # keep bars consistent
        out["high"][cut:] = np.fmax(out["high"], np.fmax(out["open"], out["close"]))[cut:]
        out["low"][cut:] = np.fmin(out["low"], np.fmin(out["open"], out["close"]))[cut:]
    return out


def make_test(feature):
    def test(case, ctx):
        if case["mode"] == "lookback" and case["spec"]["kind"] in ("jumps", "calm"):
            case = {**case, "spec": {**case["spec"], "kind": "walk"}}  # running sums keep the rounding of huge old values
        data = fl.make_data(case["spec"])
        if case["int"]:
            data = {k: np.ceil(v) for k, v in data.items()}
        n = case["spec"]["n"]
        r = rng(case["pseed"])
        if case["holes"] and case["mode"] != "lookback":
            for role in data:
                data[role] = np.array(data[role], dtype=float)
                data[role][r.uniform(size=n) < 0.05] = np.nan
            if case["pseed"] % 2:  # a gap that ends where the known data end
                at = min(max(1, min(1 + int(case["cut"] * (n - 1)), n - 1)), n)
                for role in data:
                    if r.uniform() < 0.6:
                        data[role][max(0, at - int(r.integers(1, 4))) : at] = np.nan
        params, full = case["params"], fl.full_params(feature, case["params"])
        mode = case["mode"]
        cut = 1 + int(case["cut"] * (n - 1))
        cut = min(cut, n)
        base = fl.compute(feature, data, params, container=case["container"])
        ensure(len(base) == n, f"{feature.name}: {len(base)} values for {n} observations")
        lb = feature.lookback(full) if feature.lookback else None
        if mode == "lookback" and lb is not None:
            # the values at t do not depend on data before t - lb + 1
            start = min(cut, n - 1)
            other = fl.make_data({**case["spec"], "seed": case["pseed"]})
            alt = {k: np.concatenate([other[k][:start] * 1.3, v[start:]]) for k, v in data.items()}
            got = fl.compute(feature, alt, params, container=case["container"])
            lo = start + lb - 1
            what = f"{feature.name}({full}): a change more than {lb - 1} steps back matters"
            a, b = got[lo:], base[lo:]
            atol = 1e-7 * max([1e-300, fl.scale_of(feature, data) if not feature.name.endswith("percent_b") else 0.0])
            if feature.name in ("rsi", "Bollinger.percent_b", "Donchian.percent_b", "edge_spread", "kyle_lambda",
                                "hasbrouck_lambda", "amihud_lambda", "roll_impact", "roll_measure"):
                # ratios and roots of differences: compare where well conditioned
                fin = np.isfinite(a) & np.isfinite(b)
                mag = np.nanmax(np.abs(np.concatenate([a[fin], b[fin], got[np.isfinite(got)], base[np.isfinite(base)]]))) if fin.any() else 1.0
                atol = 1e-5 * mag
                fl.agree(a, b, what, rtol=1e-5, atol=atol, nan_ok=~fin if feature.name != "edge_spread" else None)
            else:
                fl.agree(a, b, what, rtol=1e-6, atol=max(atol, 1e-7 * np.nanmax(np.abs(np.r_[base[np.isfinite(base)], 1e-300]))),
                         squared=feature.squared)
            ctx.nontrivial(np.isfinite(b).any())
            ctx.label("lookback")
            return
        if mode in ("prefix", "lookback"):
            got = fl.compute(feature, {k: v[:cut] for k, v in data.items()}, params, container=case["container"])
            what = f"{feature.name}({full}) on the first {cut} of {n} observations"
            ensure(len(got) == cut, f"{what}: {len(got)} values")
            a, b = got, base[:cut]
            ctx.label("prefix")
            ctx.nontrivial(cut < n and np.isfinite(b).any())
        else:
            if cut >= n:
                cut = n - 1
            other = fl.make_data({**case["spec"], "seed": case["pseed"]})
            alt = changed_future(data, other, cut, mode, case["pseed"])
            got = fl.compute(feature, alt, params, container=case["container"])
            what = f"{feature.name}({full}) when observations from {cut} on change ({mode})"
            a, b = got[:cut], base[:cut]
            ctx.label(mode)
            ctx.nontrivial(np.isfinite(b).any())
        fin = b[np.isfinite(b)]
        atol = 1e-9 * (np.max(np.abs(fin)) if len(fin) else 0.0)
        fl.agree(a, b, what, rtol=1e-7, atol=atol, squared=feature.squared)

    return test


def cusum_test(case, ctx):
    y = make_positive(case["spec"])
    n = len(y)
    cut = min(1 + int(case["cut"] * (n - 1)), n)
    S, crit = cusum(y)
    if case["mode"] == "prefix":
        S2, crit2 = cusum(y[:cut])
        ctx.nontrivial(1 < cut < n)
    else:
        z = y.copy()
        z[cut:] = z[cut:][::-1] * 3 + 1
        S2, crit2 = cusum(z)
        ctx.nontrivial(1 < cut < n)
    S2, crit2 = S2[:cut], crit2[:cut]
    fl.agree(S2, S[:cut], f"statistic up to {cut} of {n}", rtol=1e-8, atol=1e-9)
    fl.agree(crit2, crit[:cut], f"critical value up to {cut} of {n}", rtol=1e-8, atol=1e-9)


def _quick(f):
    if f.name == "edge_spread":
        return 60
    return 60 if f.band else 130


SUBS = [
    Sub(
        f.name,
        fl.case_strategy(
            f,
            mode=st.sampled_from(MODES),
            cut=st.floats(0, 1).map(lambda x: round(x, 3)),
            pseed=seeds(),
            int=st.sampled_from([False, False, True]),
            holes=st.sampled_from([False, True]),
            container=st.sampled_from(["series", "array"]),
        ),
        make_test(f),
        quick=_quick(f),
    )
    for f in fl.F
] + [
    Sub(
        "cusum",
        st.fixed_dictionaries(
            {
                "spec": st.fixed_dictionaries(
                    {"n": fl.lengths(2, 150), "seed": seeds(),
                     "kind": st.sampled_from(["walk", "noise", "trend", "jumps", "tiny", "big", "ties"])}
                ),
                "mode": st.sampled_from(["prefix", "other"]),
                "cut": st.floats(0, 1).map(lambda x: round(x, 3)),
            }
        ),
        cusum_test,
        quick=150,
    )
]
