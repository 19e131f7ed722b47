"""C28: bundled data sets load completely, identically and independently."""

import contextlib
import csv
import functools
import gzip
import hashlib
import logging
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.datasets as qdata
from quantfinlib.util import get_project_root, logger, to_numpy
from pbt.bootstrap import REPO
from pbt.core import Sub, ensure, identical, rng, seeds

PROPERTY = "C28"
RULE = "a history with at least two loads of one data set and a modification of a loaded frame in between"
ASSUMPTIONS = [
    "the bundled csv files are the truth; numbers are compared to a relative 1e-14 (the parser may round the last digit)",
    "the VIX levels of the source contain a few days whose open lies outside the day's range; that is not a loading error",
]
TREASURY = {"1 Mo": "1m", "2 Mo": "2m", "3 Mo": "3m", "4 Mo": "4m", "6 Mo": "6m", "1 Yr": "1y", "2 Yr": "2y", "3 Yr": "3y",
            "5 Yr": "5y", "7 Yr": "7y", "10 Yr": "10y", "20 Yr": "20y", "30 Yr": "30y"}
FILES = {"vix": "vix_ohlc.csv.gz", "treasury": "daily_treasury_rates.csv.gz", "indices": "multi_index_close.csv.gz"}
LOAD = {"vix": "load_vix", "treasury": "load_treasury_rates", "indices": "load_equity_indices"}
ROWS = {"vix": 8695, "treasury": 8631, "indices": 5751}
RES = os.path.join(REPO, "quantfinlib", "datasets", "resources")


@functools.lru_cache(None)
def parsed(name):
    """Columns, dates and numbers, read with the csv module only."""
    with gzip.open(os.path.join(RES, FILES[name]), "rt", encoding="utf-8", newline="") as f:
        rows = list(csv.reader(f))
    head, body = rows[0], [r for r in rows[1:] if r]
    cols = [TREASURY.get(c, c) for c in head[1:]]
    dates = np.array([r[0] for r in body], dtype="datetime64[D]")
    values = np.array([[float(c) if c != "" else np.nan for c in r[1:]] for r in body])
    return cols, dates, values


def digest(name):
    p = os.path.join(RES, FILES[name])
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest(), os.stat(p).st_size, os.stat(p).st_mtime_ns


def check_frame(name, df, what):
    cols, dates, values = parsed(name)
    ensure(isinstance(df, pd.DataFrame), f"{what}: {type(df).__name__}")
    ensure(list(df.columns) == cols, f"{what}: columns {list(df.columns)}, expected {cols}")
    ensure(isinstance(df.index, pd.DatetimeIndex) and df.index.tz is None, f"{what}: index {type(df.index).__name__}")
    ensure(df.index.name == "DATE", f"{what}: index name {df.index.name!r}")
    ensure(df.shape == values.shape, f"{what}: shape {df.shape}, expected {values.shape}")
    ensure(len(df) >= ROWS[name], f"{what}: {len(df)} rows, the bundled data set has {ROWS[name]}")
    ensure(np.array_equal(df.index.values.astype("datetime64[D]"), dates), f"{what}: other dates than in the file")
    ensure(bool((df.index == df.index.normalize()).all()), f"{what}: dates with a time")
    ensure(df.index.is_monotonic_increasing and df.index.is_unique, f"{what}: dates are not sorted and unique")
    ensure(all(t == np.float64 for t in df.dtypes), f"{what}: dtypes {set(df.dtypes)}")
    got = df.to_numpy()
    ensure(np.array_equal(np.isnan(got), np.isnan(values)), f"{what}: other missing values than in the file")
    with np.errstate(all="ignore"):
        bad = np.abs(got - values) > 1e-14 * np.abs(values)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ensure(False, f"{what}: {cols[j]} of {dates[i]} is {got[i, j]!r}, the file has {values[i, j]!r}")
    if name != "treasury":
        ensure(bool(np.nanmin(got) > 0), f"{what}: a level of {np.nanmin(got)}")


def modify(df, how, r):
    if how in ("cell", "drop_column") and df.shape[1] < 2:
        return
    if how == "values":
        df.iloc[:, :] = 0.0
    elif how == "cell":
        df.iloc[int(r.integers(0, len(df))), int(r.integers(0, df.shape[1]))] = -99.0
    elif how == "array":
        v = df.to_numpy(copy=False)
        if v.flags.writeable:
            v[...] = 7.0
    elif how == "drop_column":
        df.drop(columns=[df.columns[0]], inplace=True)
    elif how == "drop_rows":
        df.drop(index=df.index[:10], inplace=True)
    elif how == "rename":
        df.rename(columns={c: f"{c}_" for c in df.columns}, inplace=True)
    elif how == "columns":
        df.columns = range(df.shape[1])
    elif how == "index":
        df.index = range(len(df))
    elif how == "index_name":
        df.index.name = "other"
    elif how == "sort":
        df.sort_index(ascending=False, inplace=True)
    elif how == "fill":
        df.fillna(0.0, inplace=True)
    elif how == "new_column":
        df["extra"] = 1.0
    elif how == "index_array":
        a = df.index.to_numpy() if r.integers(0, 2) else df.index.values
        if a.flags.writeable and len(a):
            a[int(r.integers(0, len(a)))] += np.timedelta64(1, "D")
    elif how == "scale":
        df *= 2.0


HOWS = ("values", "cell", "array", "drop_column", "drop_rows", "rename", "columns", "index", "index_name", "sort", "fill",
        "new_column", "scale", "index_array")


@contextlib.contextmanager
def scratch():
    where, cwd, level = tempfile.mkdtemp(prefix="data."), os.getcwd(), logger.level
    try:
        os.chdir(where)
        yield where
    finally:
        os.chdir(cwd)
        logger.setLevel(level)
        shutil.rmtree(where, ignore_errors=True)


def history_test(case, ctx):
    r = rng(case["seed"])
    with scratch() as where:
        before = {n: digest(n) for n in FILES}
        frames, copies = [], []
        modified, reloads = set(), 0
        for op in case["ops"]:
            if op[0] == "load":
                name = op[1]
                df = getattr(qdata, LOAD[name])()
                check_frame(name, df, f"{LOAD[name]} after {len(frames)} loads")
                reloads += name in modified
                for other, _ in frames:
                    ensure(df is not other, f"{LOAD[name]} returned the same frame twice")
                frames.append((df, name))
                copies.append(df.copy(deep=True))
            elif op[0] == "modify" and frames:
                i = op[1] % len(frames)
                modify(frames[i][0], op[2], r)
                modified.add(frames[i][1])
                copies[i] = frames[i][0].copy(deep=True)
                # the other frames are independent of the modified one
                for k, (df, n) in enumerate(frames):
                    if k != i:
                        same = df.equals(copies[k]) and list(df.columns) == list(copies[k].columns)
                        ensure(same and df.index.name == copies[k].index.name, f"'{op[2]}' of one frame changed another one ({n})")
            elif op[0] == "chdir":
                d = os.path.join(where, op[1])
                os.makedirs(d, exist_ok=True)
                # a decoy with the name of the bundled file
                os.makedirs(os.path.join(d, "quantfinlib", "datasets", "resources"), exist_ok=True)
                for n in FILES.values():
                    for p in (d, os.path.join(d, "quantfinlib", "datasets", "resources")):
                        with gzip.open(os.path.join(p, n), "wt") as f:
                            f.write("DATE,x\n2020-01-01,1\n")
                os.chdir(d)
            elif op[0] == "verbosity":
                logger.setLevel(op[1])
        ensure({n: digest(n) for n in FILES} == before, "a bundled file was changed")
    ctx.nontrivial(reloads > 0)


def helpers_test(case, ctx):
    """The helpers behind the loaders: paths below the project root and conversion to arrays."""
    root = get_project_root()
    ensure(os.path.realpath(root) == os.path.realpath(REPO), f"project root {root}")
    rel = "/".join(case["parts"])
    for arg in (rel, __import__("pathlib").Path(rel)):
        ensure(os.path.normpath(get_project_root(arg)) == os.path.normpath(os.path.join(str(root), rel)), f"path of {rel!r}")
    with scratch():
        ensure(os.path.realpath(get_project_root()) == os.path.realpath(REPO), "project root after a change of directory")
        os.makedirs(os.path.join(".", rel), exist_ok=True)  # a directory of the same name here
        ensure(os.path.normpath(get_project_root(rel)) == os.path.normpath(os.path.join(str(root), rel)), f"path of {rel!r} next to another one")
    r = rng(case["seed"])
    a = r.standard_normal((case["n"], case["m"]))
    idx = r.permutation(case["n"])
    ensure(to_numpy(a) is a, "an array is returned as it is")
    identical(to_numpy(pd.DataFrame(a, index=idx)), a, "frame to array")
    identical(to_numpy(pd.Series(a[:, 0], index=idx)), a[:, 0], "Series to array")
    ctx.nontrivial()


data = st.sampled_from(sorted(FILES))
op = st.one_of(
    st.tuples(st.just("load"), data), st.tuples(st.just("load"), data),
    st.tuples(st.just("modify"), st.integers(0, 20), st.sampled_from(HOWS)),
    st.tuples(st.just("modify"), st.integers(0, 20), st.sampled_from(HOWS)),
    st.tuples(st.just("chdir"), st.sampled_from(["p", "q"])),
    st.tuples(st.just("verbosity"), st.sampled_from([logging.DEBUG, logging.INFO, logging.ERROR])),
)


@st.composite
def history(draw):
    # mostly one data set, so that loads follow modifications
    main = draw(data)
    ops = [["load", main]] + [list(o) for o in draw(st.lists(op, min_size=1, max_size=8))] + [["load", main]]
    return {"seed": draw(seeds()), "ops": ops}


SUBS = [
    Sub("histories", history(), history_test, quick=100),
    Sub("helpers", st.fixed_dictionaries(dict(
        parts=st.lists(st.sampled_from(["a", "b.csv", "data", "c"]), min_size=1, max_size=3), n=st.integers(1, 8),
        m=st.integers(1, 4), seed=seeds())), helpers_test, quick=60),
]
