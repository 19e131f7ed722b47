"""Registry of every feature of quantfinlib.feature, with the data it takes and how far it looks back."""

import contextlib
import dataclasses
from typing import Any, Callable, Optional

import joblib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.feature.indicators as ind
import quantfinlib.feature.micro_structure as ms
from pbt.core import Violation, rng, seeds
from pbt.gen import SERIES_KINDS, make_ohlc, make_positive, make_series, make_volume

ROLES_POSITIVE = {"high", "low", "open", "close", "volume", "buy", "sigma", "price"}


@contextlib.contextmanager
def inline_workers(backend="sequential"):
    """EDGE distributes windows over workers; a process pool per call would dominate the run time."""
    with joblib.parallel_config(backend=backend):
        yield


@dataclasses.dataclass
class Feature:
    name: str
    fn: Callable  # takes the series positionally and parameters by keyword
    args: tuple  # (parameter name, role)
    params: dict  # parameter name -> (lowest, role of the parameter)
    lookback: Optional[Callable] = None  # params -> number of observations up to t that matter, None: all of them
    squared: bool = False  # rounding errors of sums of squares show up squared
    max_n: int = 320
    band: bool = False


def _ewm_all(_p):
    return None


F = []


def _f(name, fn, args, params, lookback=None, **kw):
    F.append(Feature(name, fn, args, params, lookback, **kw))


W = {"window": (1, 20)}
_f("rolling_mean", ind.rolling_mean, (("ts", "any"),), W, lambda p: p["window"])
_f("rolling_std", ind.rolling_std, (("ts", "any"),), {"window": (2, 20)}, lambda p: p["window"], squared=True)
_f("rolling_max", ind.rolling_max, (("ts", "any"),), W, lambda p: p["window"])
_f("rolling_min", ind.rolling_min, (("ts", "any"),), W, lambda p: p["window"])
_f("rolling_mom", ind.rolling_mom, (("ts", "any"),), W, lambda p: p["window"] + 1)
_f("ewm_mean", ind.ewm_mean, (("ts", "any"),), {"span": (1, 20)})
_f("ewm_std", ind.ewm_std, (("ts", "any"),), {"span": (1, 20)}, squared=True)
_f("ewm_mom", ind.ewm_mom, (("ts", "any"),), {"span": (1, 20)})
_f("average_true_range", ind.average_true_range, (("high", "high"), ("low", "low"), ("close", "close")),
   {"window": (1, 14)})
_f("macd", ind.macd, (("ts", "any"),), {"fast": (1, 12), "slow": (1, 26)})
_f("macd_signal", ind.macd_signal, (("ts", "any"),), {"fast": (1, 12), "slow": (1, 26), "signal": (1, 9)})
_f("rsi", ind.rsi, (("ts", "any"),), {"period": (1, 14)}, lambda p: p["period"] + 1)
_f("ewm_rsi", ind.ewm_rsi, (("ts", "any"),), {"period": (1, 14)})

BAND_METHODS = ("upper", "lower", "middle", "bandwidth", "percent_b")


def _band(cls, method):
    def call(*args, **kw):
        return getattr(cls(*args, **kw), method)()

    return call


for _m in BAND_METHODS:
    _sq = _m != "middle"
    _f("Bollinger." + _m, _band(ind.BollingerBands, _m), (("ts", "price"),), {"window": (2, 20), "multiplier": (1, 2)},
       lambda p: p["window"], squared=_sq, band=True)
    _f("EwmBollinger." + _m, _band(ind.EwmBollingerBands, _m), (("ts", "price"),),
       {"window": (1, 20), "multiplier": (1, 2)}, squared=_sq, band=True)
    _f("Keltner." + _m, _band(ind.KeltnerBands, _m), (("high", "high"), ("low", "low"), ("close", "close")),
       {"window_atr": (1, 10), "window": (1, 20), "multiplier": (1, 2)}, band=True)
    _f("Donchian." + _m, _band(ind.DonchianBands, _m), (("ts", "price"),), W, lambda p: p["window"], band=True)

HL = (("p_high", "high"), ("p_low", "low"))
HLOC = HL + (("p_open", "open"), ("p_close", "close"))
_f("close_close_volatility", ms.get_close_close_volatility, (("p_close", "close"),), {"window": (2, None)},
   lambda p: p["window"] + 1)
_f("high_low_volatility", ms.get_high_low_volatility, HL, {"window": (1, None)}, lambda p: p["window"])
_f("garman_klass_volatility", ms.get_garman_klass_volatility, HLOC, {"window": (1, None)}, lambda p: p["window"])
_f("rogers_satchell_volatility", ms.get_rogers_satchell_volatility, HLOC, {"window": (1, None)}, lambda p: p["window"])
_f("yang_zhang_volatility", ms.get_yang_zhang_volatility, HLOC, {"window": (2, None)}, lambda p: p["window"] + 1)
_f("becker_parkinson_volatility", ms.get_becker_parkinson_volatility, HL, {"window": (1, None)},
   lambda p: p["window"] + 1, squared=True)
_f("cowrin_schultz_spread", ms.get_cowrin_schultz_spread, HL, {"window": (1, None)}, lambda p: p["window"] + 1,
   squared=True)
_f("edge_spread", ms.get_edge_spread, HLOC, {"window": (2, None)}, lambda p: p["window"], squared=True, max_n=70)
_f("roll_measure", ms.get_roll_measure, (("p_close", "close"),), {"window": (2, None)}, lambda p: p["window"] + 2,
   squared=True)
_f("roll_impact", ms.get_roll_impact, (("p_close", "close"), ("volume", "volume")), {"window": (2, None)},
   lambda p: p["window"] + 2, squared=True)
PV = (("p_close", "close"), ("volume", "volume"))
_f("kyle_lambda", ms.get_kyle_lambda, PV, {"window": (1, 10)}, lambda p: p["window"] + 1)
_f("amihud_lambda", ms.get_amihud_lambda, PV, {"window": (1, 10)}, lambda p: p["window"] + 1)
_f("hasbrouck_lambda", ms.get_hasbrouck_lambda, PV, {"window": (1, 20)}, lambda p: p["window"] + 1)
_f("vpin", ms.get_vpin, (("volume", "volume"), ("buy_volume", "buy")), {"window": (1, None)}, lambda p: p["window"])
_f("estimate_buy_volume", ms.estimate_buy_volume, PV + (("sigma_p", "sigma"),), {}, lambda p: 2)

BY_NAME = {f.name: f for f in F}


def lengths(lo=1, hi=320):
    """Mostly short (they shrink well), sometimes long enough for the usual windows and annual ones."""
    small = st.integers(lo, max(lo, min(hi, 40)))
    return st.one_of(small, small, st.integers(lo, hi), st.integers(max(lo, min(hi, 30)), min(hi, 130)))


def param_strategy(feature, n):
    d = {}
    for name, (lo, default) in feature.params.items():
        if name == "multiplier":
            d[name] = st.one_of(st.none(), st.integers(1, 5), st.sampled_from([0.5, 1.5, 2.5, 0.7, 3.14159, 0.1, 12]))
            continue
        fit = max(lo, n - 2)
        choices = [st.integers(lo, min(8, fit)), st.integers(lo, min(40, fit)), st.integers(lo, fit)]
        choices *= 3
        choices.append(st.integers(lo, 60))
        if default is not None:
            choices += [st.none()] * (3 if n > 25 else 1)  # leave it out
        d[name] = st.one_of(*choices)
    return st.fixed_dictionaries(d)


@st.composite
def case_strategy(draw, feature, min_n=2, kinds=SERIES_KINDS, **extra):
    n = draw(lengths(min_n, feature.max_n))
    case = {
        "spec": {"n": n, "seed": draw(seeds()), "kind": draw(st.sampled_from(kinds))},
        "params": draw(param_strategy(feature, n)),
    }
    for name, strategy in extra.items():
        case[name] = draw(strategy)
    return case


def given_params(params):
    """Keyword arguments for the call (None means: leave it to the default)."""
    return {k: v for k, v in params.items() if v is not None}


def full_params(feature, params):
    return {k: (feature.params[k][1] if v is None else v) for k, v in params.items()}


def make_data(spec):
    """All roles, from one specification."""
    o, h, l, c = make_ohlc(spec)
    n = spec["n"]
    v = make_volume(n, spec["seed"])
    r = rng(spec["seed"] + 9)
    buy = v * np.where(r.uniform(size=n) < 0.1, np.round(r.uniform(size=n)), r.uniform(size=n))
    sigma = np.exp(r.normal(0, 0.5, n)) * 0.02 * c
    return {"any": make_series(spec), "price": make_positive(spec), "open": o, "high": h, "low": l, "close": c,
            "volume": v, "buy": buy, "sigma": sigma}


def punch(d, roles, spec, holes):
    """Copies of the data with missing values in each of the roles: a few of them, or many."""
    if not holes:
        return d
    d = dict(d)
    r = rng(spec["seed"] + 23)
    rate = 0.02 if spec["seed"] % 2 else 0.12
    for k in roles:
        x = np.array(d[k], dtype=float)
        x[r.uniform(size=len(x)) < rate] = np.nan
        d[k] = x
    return d


def top_of(x):
    """Largest absolute value that is there, 0 if none."""
    x = np.abs(np.asarray(x, dtype=float))
    x = x[np.isfinite(x)]
    return float(x.max()) if len(x) else 0.0


def compute(feature, data, params, index=None, container="series"):
    """Numbers of the feature; data maps role -> array."""
    args = []
    for _, role in feature.args:
        x = np.array(data[role], dtype=float)
        args.append(pd.Series(x, index=index) if container == "series" else x)
    with inline_workers():
        out = feature.fn(*args, **given_params(params))
    return np.asarray(out, dtype=float)


def scale_of(feature, data):
    m = 0.0
    for _, role in feature.args:
        x = np.asarray(data[role], dtype=float)
        x = x[np.isfinite(x)]
        m = max(m, float(np.max(np.abs(x))) if len(x) else 0.0)
    return m


def agree(a, b, what, rtol=1e-8, atol=0.0, squared=False, nan_ok=None):
    """Equal up to rounding; with ``squared`` also when the squares are (roots of cancelled sums). NaN patterns match."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {b.shape}")
    with np.errstate(all="ignore"):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if squared:
            ok |= np.abs(a * a - b * b) <= atol * atol + 1e-300
    if nan_ok is not None:
        ok |= nan_ok
    if not np.all(ok):
        i = int(np.argwhere(~ok)[0][0]) if a.ndim == 1 else tuple(int(k) for k in np.argwhere(~ok)[0])
        raise Violation(f"{what}: at {i} got {a[i]!r}, expected {b[i]!r}")
