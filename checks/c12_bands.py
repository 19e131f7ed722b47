"""C12: bands bracket their middle line; %B and bandwidth are consistent; any call order gives the same."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.feature.indicators as ind
from checks import featlib as fl
from checks.c11_indicators import alpha, ewm, ewm_var, rolling, size, true_range
from pbt.core import Sub, ensure, rng, seeds
from pbt.gen import SERIES_KINDS, make_index, snapshot, unchanged

PROPERTY = "C12"
RULE = "the band has a positive width for at least one observation"
ASSUMPTIONS = [
    "%B and bandwidth are compared where the width (or middle) is above rounding level relative to the prices",
]
METHODS = fl.BAND_METHODS
NAMES = {"upper": "Upper", "lower": "Lower", "middle": "Middle", "bandwidth": "Bandwidth", "percent_b": "%B"}
CLASSES = {
    "Bollinger": (ind.BollingerBands, ("ts",), {"window": 20, "multiplier": 2}),
    "EwmBollinger": (ind.EwmBollingerBands, ("ts",), {"window": 20, "multiplier": 2}),
    "Keltner": (ind.KeltnerBands, ("high", "low", "close"), {"window_atr": 10, "window": 20, "multiplier": 2}),
    "Donchian": (ind.DonchianBands, ("ts",), {"window": 20}),
}


def reference(kind, d, p):
    """(price, middle, squared half width per multiplier)"""
    if kind == "Bollinger":
        x = d["price"]
        return x, rolling(x, p["window"], np.mean), rolling(x, p["window"], lambda v: v.var(ddof=1))
    if kind == "EwmBollinger":
        x = d["price"]
        return x, ewm(x, alpha(p["window"])), ewm_var(x, alpha(p["window"]))
    if kind == "Keltner":
        x = d["close"]
        return x, ewm(x, alpha(p["window"])), ewm(true_range(d["high"], d["low"], x), 1.0 / p["window_atr"]) ** 2
    x = d["price"]
    hi, lo = rolling(x, p["window"], np.max), rolling(x, p["window"], np.min)
    return x, (hi + lo) / 2, ((hi - lo) / 2) ** 2


def check_values(out, price, middle, var, m, what, ctx):
    """out: dict of the five results."""
    scale = size(price)
    half = np.sqrt(np.where(np.isinf(var), np.nan, var)) * m
    skip = np.isinf(var)
    atol = 1e-6 * scale  # for roots of cancelled sums of squares: squares agree to 1e-12
    fl.agree(out["middle"], middle, f"{what} middle", rtol=1e-9, atol=1e-10 * scale)
    z = np.where(skip, 0, 1)

    def sq(a):
        with np.errstate(all="ignore"):
            return np.where(skip, 0, np.sign(a) * a * a)

    # distances of the bands from the middle, compared as squares
    fl.agree(sq(out["upper"] - out["middle"]), sq(half), f"{what} (upper - middle)^2", rtol=1e-7,
             atol=atol**2 + 1e-12 * scale * np.nanmax(np.r_[half, 0.0]))
    fl.agree(sq(out["middle"] - out["lower"]), sq(half), f"{what} (middle - lower)^2", rtol=1e-7,
             atol=atol**2 + 1e-12 * scale * np.nanmax(np.r_[half, 0.0]))
    with np.errstate(all="ignore"):
        ensure(np.all((out["upper"] >= out["middle"] - 1e-9 * scale) | skip | np.isnan(half)), f"{what}: upper < middle")
        width = out["upper"] - out["lower"]
        okw = np.isfinite(width) & (width > 1e-4 * scale) & ~skip
        okm = okw & (np.abs(out["middle"]) > 1e-4 * scale)
        b = (price - out["lower"]) / width
        bw = width / out["middle"]
    fl.agree(np.where(okw, out["percent_b"], 0), np.where(okw, b, 0), f"{what} %B", rtol=1e-6, atol=1e-6)
    fl.agree(np.where(okm, out["bandwidth"], 0), np.where(okm, bw, 0), f"{what} bandwidth", rtol=1e-6, atol=1e-9)
    undefined = np.isnan(half) & ~skip
    for k in METHODS:
        if k == "middle":
            continue
        ensure(np.all(np.isnan(out[k][undefined])), f"{what} {k}: defined where the band is not")
    ctx.nontrivial(okw.any())


def band_test(kind):
    cls, roles, defaults = CLASSES[kind]

    def test(case, ctx):
        d = fl.make_data(case["spec"])
        n = case["spec"]["n"]
        if case["level"]:  # spreads and returns may be negative or straddle zero
            m = float(np.mean(d["close"])) * case["level"]
            d = {k: v - m if k in ("price", "high", "low", "close") else v for k, v in d.items()}
        if kind != "Keltner":
            d = fl.punch(d, ("price",), case["spec"], case["holes"])
        kw = {k: v for k, v in fl.given_params(case["params"]).items() if k in defaults}
        p = {**defaults, **kw}
        names = {"ts": "price"}
        index = make_index(case["index"], n, 3)
        args = [d[names.get(r, r)] for r in roles]
        if case["container"] == "series":
            args = [pd.Series(a, index=index, name="px") for a in args]
        band = cls(*args, **kw)
        what = f"{kind}({p})"
        price, middle, var = reference(kind, d, p)
        m = p.get("multiplier", 1)
        out, first = {}, {}
        for k in case["order"] + list(METHODS):
            r = getattr(band, k)()
            if case["container"] == "series":
                ensure(isinstance(r, pd.Series), f"{what} {k}: {type(r).__name__}")
                ensure(r.name == NAMES[k] + " " + kind, f"{what} {k}: named {r.name!r}")
                ensure(r.index.equals(index), f"{what} {k}: index differs")
            else:
                ensure(isinstance(r, np.ndarray), f"{what} {k}: {type(r).__name__}")
            v = np.array(r, dtype=float)
            if k in first:
                fl.agree(v, first[k], f"{what} {k} called again", rtol=1e-12)
            first.setdefault(k, v)
            out[k] = v
        check_values(out, price, middle, var, m, what, ctx)
        if kind == "Donchian":
            w = p["window"]
            fl.agree(out["upper"], rolling(price, w, np.max), f"{what} upper", rtol=1e-9, atol=1e-10 * size(price))
            fl.agree(out["lower"], rolling(price, w, np.min), f"{what} lower", rtol=1e-9, atol=1e-10 * size(price))

    return test


def generic_test(case, ctx):
    """Bands around any middle and width, e.g. the price is exactly on the lower (upper) band."""
    n, r = case["n"], rng(case["seed"])
    mid = r.normal(case["level"], 10, n)
    sd = np.abs(r.normal(0, 3, n)) + 0.1
    m = case["multiplier"]
    where = case["where"]
    ts = mid + {"lower": -1, "upper": 1, "middle": 0}.get(where, 0.3) * m * sd
    index = make_index(case["index"], n, 3)
    series = case["container"] == "series"
    args = [pd.Series(a, index=index) if series else a for a in (ts, mid, sd)]
    kw = {} if case["base"] is None else {"basename": case["base"]}
    snaps = snapshot(*args)
    band = ind.GenericBands(*args, m, **kw)
    out = {}
    for k in case["order"] + list(METHODS):
        res = getattr(band, k)()
        if series:
            ensure(isinstance(res, pd.Series) and res.index.equals(index), f"generic {k}: {type(res).__name__} / index")
            ensure(res.name == NAMES[k] + (case["base"] or ""), f"generic {k}: named {res.name!r}")
        out[k] = np.array(res, dtype=float)
    unchanged(args, snaps, "generic bands")
    check_values(out, ts, mid, sd**2, m, "generic", ctx)
    want = {"lower": 0.0, "upper": 1.0, "middle": 0.5}.get(where)
    if want is not None:
        fl.agree(out["percent_b"], np.full(n, want), f"%B with the price on the {where} band", rtol=1e-9, atol=1e-9)
    fl.agree(out["upper"] - mid, m * sd, "upper", rtol=1e-8, atol=1e-10)
    fl.agree(mid - out["lower"], m * sd, "lower", rtol=1e-8, atol=1e-10)


orders = st.lists(st.sampled_from(METHODS), max_size=8)
KINDS = tuple(k for k in SERIES_KINDS if k != "jumps")
SUBS = [
    Sub(
        kind,
        fl.case_strategy(
            fl.BY_NAME[kind + ".upper"],
            min_n=1,
            kinds=KINDS,
            container=st.sampled_from(["series", "series", "array"]),
            index=st.sampled_from(["range", "dates", "strings", "dups"]),
            order=orders,
            level=st.sampled_from([0, 0, 0, 1, 3]),
            holes=st.sampled_from([False, False, False, True]),
        ),
        band_test(kind),
        quick=350,
    )
    for kind in CLASSES
] + [
    Sub(
        "generic",
        st.fixed_dictionaries(
            {
                "n": st.integers(1, 30),
                "level": st.sampled_from([100, 100, 0, -100]),
                "seed": seeds(),
                "multiplier": st.sampled_from([1, 2, 3, 0.5, 1.5, 0.7, 3.14159, 0.05, 20]),
                "where": st.sampled_from(["lower", "upper", "middle", "other"]),
                "container": st.sampled_from(["series", "array"]),
                "index": st.sampled_from(["range", "dates", "strings", "dups"]),
                "base": st.sampled_from([None, "", " Mine"]),
                "order": orders,
            }
        ),
        generic_test,
        quick=250,
    )
]
