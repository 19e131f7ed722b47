"""C03: path_sample returns the documented container, shape, labels and layout."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.simlib import MODELS, build, model_spec
from pbt.core import Sub, ensure, rng, same, seeds
from quantfinlib.sim import QuasiRandom

PROPERTY = "C03"
RULE = (
    "Generated combinations of model, fitted container, x0 form, labels, columns, paths, steps and include_x0; "
    "non-trivial when the result is labelled or has several columns."
)
ASSUMPTIONS = [
    "a frequency (and a start date) is given or known from the fitted data whenever date labels are needed",
    "columns, when given, has one name per variate",
]

FREQS = ["D", "B", "W", "W-WED", "ME", "MS", "QE", "YS", "h", "15min"]
ZONES = [None, None, None, "UTC", "America/New_York", "Asia/Tokyo"]
fit_st = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["none", "none", "array", "array1d", "series", "frame"]),
        "index": st.sampled_from(["range", "dates", "dates_named", "strings"]),
        "freq": st.sampled_from(FREQS),
        "start": st.sampled_from(["2019-12-31", "2020-02-29", "1999-07-01", "2024-01-06", "2024-03-08 16:00", "2023-10-31 09:30"]),
        "tz": st.sampled_from(ZONES),
        "names": st.sampled_from(["str", "int", "one", "falsy"]),
        "rows": st.integers(10, 25),
    }
)
case_st = st.fixed_dictionaries(
    {
        "spec": model_spec(3),
        "quasi": st.sampled_from([False, False, False, True]),
        "fit": fit_st,
        "x0": st.sampled_from(["none", "first", "last", "float", "int", "list", "array", "row", "series", "frame"]),
        "steps": st.one_of(st.integers(1, 8), st.just(30)),
        "paths": st.one_of(st.integers(1, 4), st.just(11), st.sampled_from([1, 2, 101])),
        "label_start": st.sampled_from([None, None, "2021-01-01", "2020-02-29", "ts", "2022-06-04", "2022-06-04 23:30", "zoned"]),
        "tz": st.sampled_from(ZONES[3:]),
        "label_freq": st.sampled_from([None, None] + FREQS),
        "columns": st.booleans(),
        "include_x0": st.booleans(),
        "dt": st.sampled_from([0.1, 1, 1 / 252]),
        "seed": seeds(),
    }
)


def fit_data(f, n, seed):
    x = 50 * np.exp(np.cumsum(0.05 * rng(seed).standard_normal((f["rows"], n)), axis=0))
    if f["kind"] == "array":
        return x, None, None
    if f["kind"] == "array1d":
        return x[:, 0].copy(), None, None
    if f["index"].startswith("dates"):
        index = pd.date_range(f["start"], periods=f["rows"], freq=f["freq"], tz=f["tz"])
        if f["index"] == "dates_named":
            index.name = "when"
    elif f["index"] == "strings":
        index = pd.Index([f"r{i}" for i in range(f["rows"])], name="lbl")
    else:
        index = pd.RangeIndex(f["rows"])
    names = {"str": [f"col{i}" for i in range(n)], "int": list(range(n)), "one": [("x" * (i + 1)) for i in range(n)],
             "falsy": ["", 0, "b"][:n]}
    names = names[f["names"]]
    if f["kind"] == "series":
        return pd.Series(x[:, 0], index=index, name=names[0]), index, names[:1]
    return pd.DataFrame(x, index=index, columns=names), index, names


def indicator(x):
    return np.sin(np.arange(len(x))) + x


def test_layout(case, ctx):
    f = case["fit"]
    n = 1 if f["kind"] in ("series", "array1d") else case["spec"]["variates"]
    spec = dict(case["spec"], variates=n, zero_vol=False)
    quasi = case["quasi"]
    fitted = f["kind"] != "none" and not quasi
    steps, paths = (case["steps"] + 5 if quasi else case["steps"]), case["paths"]
    model = build(spec)
    data, index, names, rows = None, None, None, None
    if fitted:
        data, index, names = fit_data(f, n, case["seed"])
        model.fit(data, dt=0.05)
        rows = np.asarray(data).reshape(len(data), -1)
        attrs = {"ou": ("mean", "mrr", "vol"), "bm": ("drift", "vol"), "gbm": ("drift", "vol")}[spec["model"]]
        args = {a: np.array(getattr(model, a), dtype=float) for a in attrs}
        if any(not np.all(np.isfinite(v)) for v in args.values()):
            return  # e.g. an explosive AR(1) fit: no model to simulate
        clone = MODELS[spec["model"]](cor=None if model.cor is None else np.array(model.cor), **args)
    else:
        clone = build(spec)
    if quasi:
        model, clone = QuasiRandom(indicator, 0.2, model), QuasiRandom(indicator, 0.2, clone)
    dates = fitted and isinstance(index, pd.DatetimeIndex)

    # ------------------------------------------------------------------------------------------ arguments
    kw = dict(dt=case["dt"], num_steps=steps, num_paths=paths, random_state=case["seed"])
    start = np.abs(rng(case["seed"] + 5).normal(10, 3, n)) + 1
    x0 = case["x0"]
    if x0 in ("first", "last") and not fitted:
        x0 = "float"
    if x0 == "none" and quasi:
        x0 = "array"
    default = 100.0 if spec["model"] == "gbm" else 0.0
    if x0 == "none":
        want0 = rows[0] if fitted else np.full(n, default)
    elif x0 == "first":
        kw["x0"], want0 = "first", rows[0]
    elif x0 == "last":
        kw["x0"], want0 = "last", rows[-1]
    elif x0 == "float":
        kw["x0"], want0 = 7.25, np.full(n, 7.25)
    elif x0 == "int":
        kw["x0"], want0 = 7, np.full(n, 7.0)
    else:
        want0 = start
        kw["x0"] = {
            "list": [float(v) for v in start],
            "array": start.copy(),
            "row": start.reshape(1, -1).copy(),
            "series": pd.Series(start, index=[f"a{i}" for i in range(n)]),
            "frame": pd.DataFrame([start], columns=[f"a{i}" for i in range(n)]),
        }[x0]
    ls = case["label_start"]
    if ls == "ts":
        ls = pd.Timestamp("2001-09-09")
    elif ls == "zoned":
        ls = pd.Timestamp("2024-03-08 14:00", tz=case["tz"])
    lf = case["label_freq"]
    if ls is not None and lf is None and not dates:
        lf = "D"
    if lf is not None and ls is None and not dates:
        ls = "2003-03-03"
    if ls is not None:
        kw["label_start"] = ls
    if lf is not None:
        kw["label_freq"] = lf
    columns = [f"N{i}" for i in range(n)] if case["columns"] else None
    if columns:
        kw["columns"] = list(columns)

    # ------------------------------------------------------------------------------------------ the contract
    pandas_fit = fitted and f["kind"] in ("series", "frame")
    need_dates = ls is not None or lf is not None or dates
    labelled = need_dates or pandas_fit or columns is not None
    base = columns or names or ([f"S{i}" for i in range(n)] if n > 1 else ["S"])
    cols = base if paths == 1 else [f"{c}_{i}" for i in range(paths) for c in base]
    ctx.nontrivial(labelled or n * paths > 1)
    ctx.label("labelled" if labelled else "plain", "fit:" + (f["kind"] if fitted else "none"))

    got = model.path_sample(include_x0=case["include_x0"], **kw)
    numbers = np.asarray(clone.path_sample(x0=want0, dt=case["dt"], num_steps=steps, num_paths=paths,
                                           random_state=case["seed"]))
    same(numbers[0], np.tile(want0, paths), "first row", rtol=1e-12)
    ensure(numbers.shape == (steps + 1, n * paths), f"shape {numbers.shape}, expected {(steps + 1, n * paths)}")
    skip = 0 if case["include_x0"] else 1
    numbers = numbers[skip:]
    if not labelled:
        ensure(type(got) is np.ndarray, f"result is a {type(got).__name__}, expected an array")
        same(got, numbers, "path", rtol=1e-11)
        return
    if n * paths == 1 and (not fitted or f["kind"] == "series"):
        ensure(isinstance(got, pd.Series), f"result is a {type(got).__name__}, expected a Series")
        ensure(got.name == cols[0], f"name {got.name!r}, expected {cols[0]!r}")
        same(got.to_numpy(), numbers[:, 0], "path", rtol=1e-11)
    else:
        ensure(isinstance(got, pd.DataFrame), f"result is a {type(got).__name__}, expected a DataFrame")
        ensure(list(got.columns) == list(cols), f"columns {list(got.columns)}, expected {cols}")
        same(got.to_numpy(), numbers, "path", rtol=1e-11)
    if need_dates:
        first = ls if ls is not None else (index.max() if x0 == "last" else index.min())
        freq = lf if lf is not None else f["freq"]
        want = pd.date_range(start=first, freq=freq, periods=steps + 1)[skip:]
        ensure(isinstance(got.index, pd.DatetimeIndex), f"index is {type(got.index).__name__}, expected dates")
        ensure(got.index.tz == want.tz, f"time zone {got.index.tz}, expected {want.tz}")
        ensure(got.index.equals(want), f"dates {list(got.index[:3])}..., expected {list(want[:3])}...")
        ensure(got.index.name == (index.name if dates else None), f"index name {got.index.name!r}")
    else:
        ensure(list(got.index) == list(range(skip, steps + 1)), f"index {list(got.index)[:4]}")


def test_defaults(case, ctx):
    """Default number of steps and paths, and the default of include_x0."""
    spec = dict(case["spec"], zero_vol=False)
    n = spec["variates"]
    model = build(spec)
    x0 = 3.0
    ctx.nontrivial()
    a = model.path_sample(x0, 0.01, random_state=case["seed"])
    b = model.path_sample(x0=x0, dt=0.01, num_steps=252, num_paths=1, include_x0=True, random_state=case["seed"])
    ensure(a.shape == (253, n), f"default shape {a.shape}")
    same(a, b, "default arguments", rtol=1e-12)


SUBS = [
    Sub("layout", case_st, test_layout, quick=2500),
    Sub("defaults", st.fixed_dictionaries({"spec": model_spec(3), "seed": seeds()}), test_defaults, quick=40),
]
