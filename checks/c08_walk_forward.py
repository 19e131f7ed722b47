"""C08: walk-forward splits are causal, windowed and embargoed."""

import warnings

import numpy as np
from hypothesis import strategies as st

from checks.splitlib import Layout, compare, consume, layout
from checks.c07_time_aware_kfold import large_units
from pbt.core import Sub, ensure, rejects, seeds
from pbt.gen import snapshot, unchanged
from quantfinlib.train_test_split import WalkForward

PROPERTY = "C08"
RULE = (
    "Generated group layouts (ties, gaps, integers or dates, any container and labels), windows, embargo, split type "
    "and reuse of one splitter; non-trivial when at least two splits are produced, or one with an embargo."
)
ASSUMPTIONS = ["groups are numbers (no freq) or dates with a frequency of fixed length (us to W)"]

windows = st.one_of(st.integers(1, 6), st.sampled_from([1, 2, 10, 30]))
case_st = st.fixed_dictionaries(
    {
        "layout": layout(),
        "train": windows,
        "test": windows,
        "embargo": st.one_of(st.just(0), st.integers(0, 4), st.just(9)),
        "type": st.sampled_from(["expanding", "rolling", "default"]),
        "number": st.sampled_from(["int", "int64"]),
        "order": st.sampled_from(["once", "twice", "interleaved", "after_other"]),
        "other": layout(20),
    }
)


def reference(units, train, test, embargo, rolling):
    n = len(units)
    out = []
    first, last = units[0], units[-1]
    k = 0
    while True:
        t0 = first + train + k * test
        if t0 > last:
            return out, False
        s0 = first + k * test if rolling else first
        k += 1
        te = [i for i in range(n) if t0 <= units[i] < t0 + test]
        tr = [i for i in range(n) if s0 <= units[i] < t0]
        if not te or not tr:
            continue
        lo = min(units[i] for i in te)
        tr = [i for i in tr if not lo - embargo <= units[i] < lo]
        if not tr:
            return out, True
        out.append((tr, te))


def count(wf):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return wf.get_n_splits()


def test_split(case, ctx):
    lay = Layout(case["layout"])
    kw = {} if case["type"] == "default" else {"split_type": case["type"]}
    rolling = case["type"] == "rolling"
    number = {"int": int, "int64": np.int64}[case.get("number", "int")]
    wf = WalkForward(n_embargo=number(case["embargo"]), train_window=number(case["train"]), test_window=number(case["test"]), freq=lay.freq, **kw)
    ensure(count(wf) == 0, "splits are reported before the first pass")
    inputs = [lay.X, lay.groups] + ([] if lay.y is None else [lay.y])
    snaps = snapshot(*inputs)
    want, want_error = reference(lay.units, case["train"], case["test"], case["embargo"], rolling)
    ctx.nontrivial(len(want) >= 2 or (len(want) == 1 and case["embargo"] > 0))
    ctx.label(case["layout"]["kind"], case["type"], "embargoed" if case["embargo"] else "plain")
    other = None
    if case["order"] in ("after_other", "interleaved"):
        spec = dict(case["other"], kind=case["layout"]["kind"], freq=case["layout"]["freq"])
        other = Layout(spec)
        owant, oerror = reference(other.units, case["train"], case["test"], case["embargo"], rolling)
    if case["order"] == "after_other":
        got, error = consume(wf.split(other.X, other.y, other.groups))
        compare(got, error, owant, oerror, other.n, "split of other data")
        if error is None:
            ensure(count(wf) == len(owant), f"get_n_splits is {count(wf)} after {len(owant)} splits of other data")
    elif case["order"] == "interleaved":
        gen = wf.split(other.X, other.y, other.groups)
        head = []
        try:
            head.append(next(gen))
        except Exception:
            pass
        mid = wf.split(lay.X, lay.y, lay.groups)
        got, error = consume(mid)
        compare(got, error, want, want_error, lay.n, "split during another pass")
        if error is None:
            ensure(count(wf) == len(want), f"get_n_splits is {count(wf)} after {len(want)} splits")
        rest, error = consume(gen)
        if head:
            compare(head + rest, error, owant, oerror, other.n, "split around another pass")
            if error is None:
                ensure(count(wf) == len(owant), f"get_n_splits is {count(wf)} after {len(owant)} splits")
    got, error = consume(wf.split(lay.X, lay.y, lay.groups))
    compare(got, error, want, want_error, lay.n, "split")
    if error is None:
        ensure(count(wf) == len(want), f"get_n_splits is {count(wf)} after {len(want)} splits")
        ensure(wf.get_n_splits(lay.X, lay.y, lay.groups) == len(want), "get_n_splits with arguments")
    if case["order"] == "twice":
        for _ in range(2):
            got, error = consume(wf.split(lay.X, groups=lay.groups))
            compare(got, error, want, want_error, lay.n, "repeated split")
        if error is None:
            ensure(count(wf) == len(want), f"get_n_splits is {count(wf)} after repeated passes of {len(want)} splits")
    unchanged(inputs, snaps, "split")


bad_case = st.fixed_dictionaries(
    {
        "layout": layout(),
        "train": st.one_of(st.none(), st.integers(-2, 3)),
        "test": st.one_of(st.none(), st.integers(-2, 3)),
        "embargo": st.integers(0, 2),
        "type": st.sampled_from(["expanding", "rolling"]),
    }
)


def test_bad_windows(case, ctx):
    lay = Layout(case["layout"])
    if (case["train"] or 0) > 0 and (case["test"] or 0) > 0:
        case = dict(case, train=0)
    ctx.nontrivial()
    # left out, they are the documented 0
    given = {f"{k}_window": case[k] for k in ("train", "test") if case[k] is not None}

    def go():
        wf = WalkForward(n_embargo=case["embargo"], **given,
                         split_type=case["type"], freq=lay.freq)
        return list(wf.split(lay.X, lay.y, lay.groups))

    rejects(go, ValueError, f"windows of {case['train']} and {case['test']}")


def test_large(case, ctx):
    """A long history, compared with array arithmetic."""
    n, train, test, embargo = (case[k] for k in ("n", "train", "test", "embargo"))
    groups, units = large_units(case)
    rolling = case["rolling"]
    got = list(WalkForward(n_embargo=embargo, train_window=train, test_window=test,
                           split_type="rolling" if rolling else "expanding").split(np.zeros((n, 1)), None, groups))
    first, k, i = units[0], 0, 0
    while first + train + k * test <= units[-1]:
        t0 = first + train + k * test
        s0 = first + k * test if rolling else first
        k += 1
        te = np.flatnonzero((units >= t0) & (units < t0 + test))
        tr = np.flatnonzero((units >= s0) & (units < t0))
        if not len(te) or not len(tr):
            continue
        tr = tr[units[tr] < units[te[0]] - embargo]
        ensure(i < len(got), f"{len(got)} splits of {n} samples, more expected")
        for have, want, what in ((got[i][0], tr, "training"), (got[i][1], te, "test")):
            ensure(np.array_equal(np.asarray(have), want), f"split {i} of {n} samples: {len(have)} {what} samples, expected {len(want)}, or others")
        i += 1
    ensure(i == len(got), f"{len(got)} splits of {n} samples, expected {i}")
    ctx.nontrivial(i > 1)


large_case = st.fixed_dictionaries({
    "n": st.one_of(st.integers(300, 3000), st.sampled_from([32768, 40000, 65536, 70001])), "parts": st.integers(2, 6), "embargo": st.integers(0, 30),
    "train": st.integers(100, 3000), "rolling": st.booleans(), "plain": st.booleans(), "seed": seeds()}).map(
        lambda c: dict(c, test=max(31, c["n"] // c["parts"] // 2)))
SUBS = [
    Sub("large", large_case, test_large, quick=40),
    Sub("split", case_st, test_split, quick=3000),
    Sub("bad_windows", bad_case, test_bad_windows, quick=150),
]
