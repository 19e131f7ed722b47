"""Generators shared by the checks. Strategies give JSON values; ``make_*`` turn them into arrays deterministically."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import rng, seeds

SERIES_KINDS = ("walk", "noise", "ties", "trend", "flat_runs", "jumps", "up", "down", "tiny", "big", "calm", "flat_start")


def series_spec(min_n=1, max_n=60, kinds=SERIES_KINDS):
    return st.fixed_dictionaries(
        {"n": st.integers(min_n, max_n), "seed": seeds(), "kind": st.sampled_from(kinds)}
    )


def make_positive(spec):
    """A positive price-like series."""
    n, kind = spec["n"], spec["kind"]
    r = rng(spec["seed"])
    z = r.standard_normal(n)
    if kind == "walk":
        x = 100 * np.exp(np.cumsum(0.02 * z))
    elif kind == "noise":
        x = 50 + 5 * np.abs(z) + r.uniform(0, 10, n)
    elif kind == "ties":
        x = r.integers(1, 5, n).astype(float)
    elif kind == "trend":
        x = 10 + np.arange(n) * r.uniform(0.05, 2) + 0.3 * np.abs(z)
    elif kind == "flat_runs":
        x = np.repeat(r.integers(2, 9, n).astype(float), r.integers(1, 5, n))[:n]
    elif kind == "jumps":
        x = np.exp(3 * np.cumsum((r.uniform(size=n) < 0.15) * z)) * (1 + 0.01 * np.abs(z))
        x = np.clip(x, 1e-6, 1e6)
    elif kind == "up":
        x = 1 + np.cumsum(r.uniform(0.01, 2, n))
    elif kind == "down":
        x = (1 + np.cumsum(r.uniform(0.01, 2, n)))[::-1].copy()
    elif kind == "flat_start":
        x = 40 * np.exp(np.cumsum(0.02 * z))
        x[: 1 + int(r.integers(0, max(1, n // 2)))] = x[0]
    elif kind == "calm":
        x = 100 * np.exp(np.cumsum(10.0 ** r.integers(-7, -3) * z))
    elif kind == "tiny":
        x = 1e-5 * np.exp(np.cumsum(0.1 * z))
    elif kind == "big":
        x = 1e6 * np.exp(np.cumsum(0.05 * z))
    else:
        raise ValueError(kind)
    return x


def make_series(spec):
    """Any real series (the positive ones, plus centred ones)."""
    x = make_positive(spec)
    if spec["kind"] in ("walk", "noise", "ties") and spec["seed"] % 3 == 0:
        x = x - np.round(np.mean(x))
    return x


def make_ohlc(spec, flat_prob=0.1):
    """Consistent bars: low <= open, close <= high, all positive. Some bars are flat, some touch their extremes."""
    n = spec["n"]
    close = make_positive(spec)
    r = rng(spec["seed"] + 1)
    calm = 10.0 ** -(spec["seed"] % 5) if spec["kind"] == "calm" else 1.0
    open_ = np.empty(n)
    open_[0] = close[0] * np.exp(0.01 * calm * r.standard_normal())
    gap = np.where(r.uniform(size=n) < 0.5, 0.0, 0.01 * calm * r.standard_normal(n))
    open_[1:] = close[:-1] * np.exp(gap[1:])
    top, bottom = np.maximum(open_, close), np.minimum(open_, close)
    up = np.where(r.uniform(size=n) < 0.25, 0.0, np.abs(0.02 * calm * r.standard_normal(n)))
    dn = np.where(r.uniform(size=n) < 0.25, 0.0, np.abs(0.02 * calm * r.standard_normal(n)))
    high, low = top * np.exp(up), bottom * np.exp(-dn)
    flat = r.uniform(size=n) < flat_prob
    for a in (open_, high, low):
        a[flat] = close[flat]
    return open_, high, low, close


def make_volume(n, seed):
    r = rng(seed + 2)
    v = np.exp(r.normal(5, 1, n))
    if seed % 2:
        v = np.round(v) + 1
    return v


INDEX_KINDS = ("range", "dates", "tz_dates", "strings", "dups", "shuffled", "floats", "offset", "period")


def make_index(kind, n, seed=0):
    r = rng(seed + 3)
    if kind == "range":
        return pd.RangeIndex(n)
    if kind == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="B", name="when")
    if kind == "tz_dates":
        return pd.date_range("2021-03-01", periods=n, freq="h", tz="Europe/Amsterdam")
    if kind == "strings":
        return pd.Index([f"r{i}" for i in range(n)], name="lbl")
    if kind == "dups":
        return pd.Index(r.integers(0, max(1, n // 3) + 1, n))
    if kind == "shuffled":
        return pd.Index(r.permutation(n))
    if kind == "floats":
        return pd.Index(np.sort(r.uniform(size=n)))
    if kind == "offset":
        return pd.RangeIndex(5, 5 + n)
    if kind == "period":
        return pd.period_range("2000-01", periods=n, freq="M")
    raise ValueError(kind)


def random_cor(dim, seed, strength=1.0):
    """A well-conditioned correlation matrix."""
    r = rng(seed)
    f = r.standard_normal((dim, dim)) * strength
    c = f @ f.T + 0.3 * dim * np.eye(dim)
    s = np.sqrt(np.diag(c))
    c = c / np.outer(s, s)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


def snapshot(*objs):
    """Deep copies of arrays/Series/frames, to detect modification."""
    out = []
    for o in objs:
        if isinstance(o, (pd.Series, pd.DataFrame)):
            out.append(o.copy(deep=True))
        elif isinstance(o, np.ndarray):
            out.append(o.copy())
        elif isinstance(o, list):
            out.append(list(o))
        else:
            out.append(o)
    return out


def unchanged(objs, snaps, what):
    from pbt.core import violate

    for o, s in zip(objs, snaps):
        if isinstance(o, pd.Series):
            ok = o.equals(s) and o.index.equals(s.index) and o.name == s.name and o.dtype == s.dtype
        elif isinstance(o, pd.DataFrame):
            ok = o.equals(s) and o.index.equals(s.index) and o.columns.equals(s.columns)
        elif isinstance(o, np.ndarray):
            ok = o.dtype == s.dtype and o.shape == s.shape and (
                np.array_equal(o, s, equal_nan=True) if o.dtype.kind == "f" else np.array_equal(o, s)
            )
        else:
            ok = o is s or o == s
        if not ok:
            violate(f"{what}: the caller's data were modified")
