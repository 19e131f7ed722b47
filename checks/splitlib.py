"""Group layouts shared by the train/test split checks."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import ensure, rng, seeds

UNIT = {"D": pd.Timedelta(days=1), "h": pd.Timedelta(hours=1), "W": pd.Timedelta(weeks=1), "min": pd.Timedelta(minutes=1),
        "s": pd.Timedelta(seconds=1), "ms": pd.Timedelta(milliseconds=1), "us": pd.Timedelta(microseconds=1)}
# around the changes to and from summer time, and elsewhere
STARTS = ["2010-01-01", "2010-03-27 12:00", "2010-03-28", "2010-10-30 12:00", "2010-10-31 00:30", "1969-12-30", "2024-02-28"]


def layout(max_n=40):
    return st.fixed_dictionaries(
        {
            # run lengths of equal groups and the gaps between successive groups (in units)
            "runs": st.one_of(
                st.lists(st.integers(1, 4), min_size=1, max_size=14),
                st.lists(st.integers(1, 3), min_size=6, max_size=18),
                st.lists(st.just(1), min_size=8, max_size=max_n),
                st.lists(st.sampled_from([1, 1, 1, 2, 3, 7]), min_size=5, max_size=20),
                # many samples: the same runs over and over
                st.builds(lambda runs, k: runs * k, st.lists(st.integers(1, 5), min_size=1, max_size=6), st.integers(20, 60)),
                # many samples at a time
                st.lists(st.sampled_from([1, 2, 40, 75, 130]), min_size=3, max_size=8),
            ),
            "gaps": st.one_of(
                st.just([1]), st.lists(st.integers(1, 6), min_size=1, max_size=6), st.sampled_from([[1, 1, 3], [2], [1, 25]])
            ),
            "start": st.sampled_from([0, 0, 5, -7, 1000, 2**31 - 3, 202001010930, -(2**40)]),
            "day": st.sampled_from(STARTS),
            "kind": st.sampled_from(["none", "array", "array", "series", "dates", "date_series", "tz_dates", "tz_date_series"]),
            "zone": st.sampled_from(["UTC", "Europe/Amsterdam", "Europe/Amsterdam", "America/New_York"]),
            "dtype": st.sampled_from(["int64", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "float64", "float64"]),
            "freq": st.sampled_from(sorted(UNIT) + ["h", "h", "D"]),
            "labels": st.sampled_from(["range", "reversed", "shuffled", "strings", "offset", "dups"]),
            "x": st.sampled_from(["array", "frame", "frame_dates", "frame_shuffled", "wide"]),
            "y": st.sampled_from(["none", "array", "series"]),
            "seed": seeds(),
        }
    )


class Layout:
    def __init__(self, spec):
        runs, gaps = spec["runs"], spec["gaps"]
        g, units = spec["start"], []
        # times measured in parts of a unit
        if spec["dtype"] == "float64" and spec["kind"] in ("array", "series"):
            gaps = [k / 4 for k in gaps]
            g = g + 0.25
        if "date" in spec["kind"]:
            g = g % 1000
        for i, run in enumerate(runs):
            units += [g] * run
            g += gaps[i % len(gaps)]
        n = len(units)
        if spec["kind"] == "none":
            units = list(range(n))
        self.n, self.units = n, units
        kind = spec["kind"]
        self.dated = "date" in kind
        self.freq = spec["freq"] if self.dated else None
        r = rng(spec["seed"])
        labels = {
            "range": pd.RangeIndex(n),
            "reversed": pd.Index(np.arange(n)[::-1]),
            "shuffled": pd.Index(r.permutation(n)),
            "strings": pd.Index([f"r{i}" for i in range(n)]),
            "offset": pd.RangeIndex(3, n + 3),
            "dups": pd.Index(np.arange(n) // 3),
        }[spec["labels"]]
        values = np.array(units)
        dtype = np.dtype(spec.get("dtype", "int64"))
        if dtype.kind != "f" and np.iinfo(dtype).min <= units[0] and units[-1] <= np.iinfo(dtype).max:
            values = values.astype(dtype)
        if kind == "none":
            self.groups = None
        elif kind == "array":
            self.groups = values
        elif kind == "series":
            self.groups = pd.Series(values, index=labels)
        else:
            stamps = pd.Timestamp(spec["day"]) + pd.to_timedelta([u * UNIT[self.freq] for u in units])
            stamps = pd.DatetimeIndex(stamps)
            if kind.startswith("tz"):
                stamps = stamps.tz_localize("UTC").tz_convert(spec["zone"])
            self.groups = pd.Series(stamps, index=labels) if kind.endswith("series") else stamps
        x = r.standard_normal((n, 3 if spec["x"] == "wide" else 1))
        self.X = {
            "array": x,
            "wide": x,
            "frame": pd.DataFrame(x),
            "frame_dates": pd.DataFrame(x, index=pd.date_range("2000-01-01", periods=n)),
            "frame_shuffled": pd.DataFrame(x, index=r.permutation(n)),
        }[spec["x"]]
        self.y = {"none": None, "array": r.integers(0, 2, n), "series": pd.Series(r.standard_normal(n), index=labels)}[spec["y"]]


def consume(gen):
    """All yielded splits, and the exception that ended the iteration (or None)."""
    out = []
    try:
        for item in gen:
            out.append(item)
    except Exception as e:
        return out, e
    return out, None


def check_index(a, what):
    ensure(isinstance(a, np.ndarray) and a.ndim == 1, f"{what}: expected a 1d index array")
    ensure(np.issubdtype(a.dtype, np.integer), f"{what}: indices have dtype {a.dtype}")
    return [int(i) for i in a]


def compare(got, error, want, want_error, n, what):
    """got: list of (train, test); want: the same as lists of ints; want_error: whether the last step must raise."""
    for k, (train, test) in enumerate(got):
        tr, te = check_index(train, f"{what}: training set {k}"), check_index(test, f"{what}: test set {k}")
        ensure(k < len(want), f"{what}: split {k} (test {te}) should not exist" + (", a ValueError was expected" if want_error else ""))
        ensure(te == want[k][1], f"{what}: test set {k} is {te}, expected {want[k][1]}")
        ensure(tr == want[k][0], f"{what}: training set {k} is {tr}, expected {want[k][0]} (test set {te})")
    if error is not None:
        ensure(want_error, f"{what}: raised {type(error).__name__}: {error}")
        ensure(isinstance(error, ValueError), f"{what}: raised {type(error).__name__}: {error}, expected ValueError")
    else:
        ensure(not want_error, f"{what}: ValueError expected after {len(want)} splits")
    ensure(len(got) == len(want), f"{what}: {len(got)} splits, expected {len(want)}")
