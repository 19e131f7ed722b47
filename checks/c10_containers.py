"""C10: features treat arrays and Series alike and keep length, index and inputs."""

import inspect

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import featlib as fl
from pbt.core import Sub, ensure, rejects, rng, seeds, short
from pbt.gen import INDEX_KINDS, make_index, make_positive, snapshot, unchanged
from quantfinlib.feature import chu_stinchcombe_white_cusum_test as cusum

PROPERTY = "C10"
RULE = (
    "the feature is defined (not NaN) somewhere and the index is not the default one, or the malformed call would "
    "otherwise be valid"
)
ASSUMPTIONS = [
    "all series of one call have the same index",
    "EDGE windows are computed in-process instead of on a process pool",
]

STYLES = ("positional", "keyword", "mixed")
LAYOUTS = ("plain", "strided", "reversed", "fortran_column", "readonly")


def layout(x, kind):
    """The same numbers in another memory layout."""
    x = np.asarray(x)
    if kind == "strided":
        out = np.empty(2 * len(x), dtype=x.dtype)
        out[::2] = x
        out[1::2] = 7
        return out[::2]
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "fortran_column":
        return np.column_stack([x, x + 1])[:, 0]
    x = x.copy()
    if kind == "readonly":
        x.flags.writeable = False
    return x


def call(feature, series, params, style):
    names = [a for a, _ in feature.args]
    params = fl.given_params(params)
    with fl.inline_workers():
        if style == "keyword":
            return feature.fn(**dict(zip(names, series)), **params)
        if style == "mixed" and len(names) > 1:
            return feature.fn(series[0], **dict(zip(names[1:], series[1:])), **params)
        if style == "positional" and len(params) == len(feature.params) and feature.params:
            return feature.fn(*series, *[params[k] for k in feature.params])
        return feature.fn(*series, **params)


INT_TYPES = ("int16", "int32", "int64", "uint16", "uint32", "uint64")


def to_integers(x, role, dtype):
    """Whole numbers that fit the type; volumes are large, as they are in practice."""
    top = np.iinfo(dtype).max
    x = np.ceil(x * 1e4 if role in ("volume", "buy") else x)
    if dtype[0] == "u" and x.min() < 0:
        x = x - x.min()
    size = np.abs(x).max()
    if size >= top:
        x = np.ceil(x / size * (top // 2))
    return x.astype(dtype)


def raw(feature, case):
    data = fl.make_data(case["spec"])
    out = []
    for _, role in feature.args:
        x = np.array(data[role], dtype=float)
        if case["dtype"] != "float":
            x = x.astype(np.float32) if case["dtype"] == "float32" else to_integers(x, role, case["dtype"])
        elif case["holes"]:
            x[rng(case["iseed"]).uniform(size=len(x)) < 0.05] = np.nan
        out.append(x)
    return out


def make_parity(feature):
    def test(case, ctx):
        n = case["spec"]["n"]
        xs = raw(feature, case)
        params, full = case["params"], fl.full_params(feature, case["params"])
        what = f"{feature.name}({full})"

        arrays = [layout(x, case["layout"]) for x in xs]
        before = snapshot(*arrays)
        a = call(feature, arrays, params, case["style"])
        unchanged(arrays, before, f"{what} on arrays")
        ensure(isinstance(a, np.ndarray), f"{what}: arrays give {type(a).__name__}")
        ensure(a.shape == (n,), f"{what}: shape {a.shape} for {n} observations")

        index = make_index(case["index"], n, case["iseed"])
        series = [pd.Series(x, index=index, name=nm) for x, nm in zip(xs, ("p", None, "q", "r"))]
        before = snapshot(*series)
        s = call(feature, series, params, case["style2"])
        unchanged(series, before, f"{what} on Series")
        ensure(isinstance(s, pd.Series), f"{what}: Series give {type(s).__name__}")
        ensure(len(s) == n, f"{what}: {len(s)} values for {n} observations")
        ensure(
            s.index.equals(index) and s.index.dtype == index.dtype and s.index.name == index.name,
            lambda: f"{what}: index {short(s.index, 200)}, expected {short(index, 200)}",
        )
        ensure(a.dtype.kind == "f" and s.dtype.kind == "f", f"{what}: dtypes {a.dtype} and {s.dtype}")
        fin = np.abs(a[np.isfinite(a)])
        fl.agree(s.to_numpy(), a, f"{what}: Series ({case['index']} index) against array", rtol=1e-9,
                 atol=1e-12 * (fin.max() if len(fin) else 0))
        ctx.nontrivial(np.isfinite(a).any() and case["index"] != "range")
        ctx.label(case["index"], case["dtype"], case["layout"])

        ensure(a.dtype == s.dtype, f"{what}: arrays of {case['dtype']} give {a.dtype}, Series {s.dtype}")
        if case["dtype"] not in ("float", "float32"):
            f = call(feature, [x.astype(float) for x in xs], params, "keyword")
            fl.agree(a, f, f"{what}: integers against floats", rtol=1e-9, atol=1e-12 * (fin.max() if len(fin) else 0))

    return test


BAD = ("list", "tuple", "scalar", "frame", "none", "string", "array_in_series", "series_in_array")


def make_malformed(feature):
    def test(case, ctx):
        xs = raw(feature, {**case, "dtype": "float", "holes": False})
        n = case["spec"]["n"]
        index = make_index(case["index"], n, 1)
        pos = case["pos"] % len(xs)
        bad = case["bad"]
        if bad in ("array_in_series", "series_in_array") and len(xs) == 1:
            bad = "list"
        if bad == "series_in_array":
            args = list(xs)
            args[pos] = pd.Series(xs[pos], index=index)
        else:
            args = [pd.Series(x, index=index) for x in xs]
            if case["arrays"] and bad != "array_in_series":
                args = list(xs)
            args[pos] = {
                "list": xs[pos].tolist(),
                "tuple": tuple(xs[pos].tolist()),
                "scalar": float(xs[pos][0]),
                "frame": pd.DataFrame({"a": xs[pos]}),
                "none": None,
                "string": "abc",
                "array_in_series": xs[pos],
            }[bad]
        rejects(
            lambda: call(feature, args, case["params"], case["style"]),
            TypeError,
            f"{feature.name}: {bad} as {feature.args[pos][0]}",
        )
        ctx.nontrivial()
        ctx.label(bad)

    return test


def cusum_test(case, ctx):
    y = make_positive(case["spec"])
    x = layout(y, case["layout"])
    before = snapshot(x)
    out = cusum(x)
    unchanged([x], before, "cusum")
    ensure(isinstance(out, tuple) and len(out) == 2, "cusum: not a pair")
    ref = cusum(y)
    for a, b in zip(out, ref):
        ensure(isinstance(a, np.ndarray) and a.shape == (len(y),), "cusum: not one value per observation")
        fl.agree(a, b, "cusum in another memory layout")
    for dtype in INT_TYPES:
        z = to_integers(y, "price", dtype)
        if len(set(z)) > 1:
            for a, b in zip(cusum(layout(z, case["layout"])), cusum(z.astype(float))):
                fl.agree(a, b, f"cusum of {dtype} prices against floats")
    ctx.nontrivial(len(y) > 2)


# one representative method per band class carries the malformed-input check (the constructor does the work)
def _malformed_features():
    return [f for f in fl.F if not f.band or f.name.endswith(".upper")]


SUBS = (
    [
        Sub(
            f.name,
            fl.case_strategy(
                f,
                min_n=1,
                dtype=st.sampled_from(["float"] * 4 + ["float32"] + list(INT_TYPES)),
                holes=st.sampled_from([False, False, True]),
                layout=st.sampled_from(LAYOUTS),
                index=st.sampled_from(INDEX_KINDS),
                iseed=st.integers(0, 1000),
                style=st.sampled_from(STYLES),
                style2=st.sampled_from(STYLES),
            ),
            make_parity(f),
            quick=60 if f.name == "edge_spread" else (50 if f.band else 110),
        )
        for f in fl.F
    ]
    + [
        Sub(
            f.name + ":malformed",
            fl.case_strategy(
                f,
                min_n=3,
                bad=st.sampled_from(BAD),
                pos=st.integers(0, 3),
                arrays=st.booleans(),
                index=st.sampled_from(["range", "dates", "strings"]),
                style=st.sampled_from(STYLES),
            ),
            make_malformed(f),
            quick=40,
            weight=0.3,
        )
        for f in _malformed_features()
    ]
    + [
        Sub(
            "cusum",
            st.fixed_dictionaries(
                {
                    "spec": st.fixed_dictionaries(
                        {"n": st.integers(2, 60), "seed": seeds(), "kind": st.sampled_from(["walk", "noise", "trend"])}
                    ),
                    "layout": st.sampled_from(LAYOUTS),
                }
            ),
            cusum_test,
            quick=60,
        )
    ]
)
