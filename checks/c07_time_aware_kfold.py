"""C07: time-aware K-fold never leaks test groups or purged/embargoed data."""

import numpy as np
from hypothesis import strategies as st

from checks.splitlib import Layout, compare, consume, layout
from pbt.core import Sub, ensure, rejects, rng, seeds
from pbt.gen import snapshot, unchanged
from quantfinlib.train_test_split import TimeAwareKFold

PROPERTY = "C07"
RULE = (
    "Generated group layouts (ties, gaps, integers or dates, any container and labels), folds, purge, embargo and "
    "look_forward; non-trivial when at least one split is produced with ties, gaps, purging or embargoing."
)
ASSUMPTIONS = [
    "groups are numbers (no freq) or dates with a frequency of fixed length (us to W)",
    "purge plus embargo larger than the largest possible training set may be rejected up front with ValueError",
]

case_st = st.fixed_dictionaries(
    {
        "layout": layout(),
        "folds": st.one_of(st.integers(2, 5), st.sampled_from([2, 3, 7, 10, 24, 45])),
        "purge": st.one_of(st.integers(0, 3), st.sampled_from([0, 5, 9])),
        "embargo": st.one_of(st.integers(0, 3), st.sampled_from([0, 5, 9])),
        "look_forward": st.booleans(),
        "freq_anyway": st.booleans(),
        "number": st.sampled_from(["int", "int64"]),
        "order": st.sampled_from(["once", "twice", "interleaved"]),
    }
)


def reference(units, folds, purge, embargo, look_forward):
    """Per-sample specification: list of (train, test), and whether a ValueError ends it."""
    n = len(units)
    # near-equal folds: the first n % folds folds have one sample more
    fold_of = []
    for f in range(folds):
        fold_of += [f] * (n // folds + (1 if f < n % folds else 0))
    # a group belongs to the earliest fold that any of its samples falls in
    first = {}
    for i, g in enumerate(units):
        first.setdefault(g, fold_of[i])
    tests = [[i for i in range(n) if first[units[i]] == f] for f in range(folds)]
    if any(not t for t in tests):
        return [], True
    out = []
    for f in range(1 if look_forward else 0, folds):
        test = tests[f]
        lo, hi = units[test[0]], units[test[-1]]
        train = []
        for i in range(n):
            g = units[i]
            if i in test:
                continue
            if look_forward and g > lo:
                continue
            if hi < g <= hi + purge:
                continue
            if lo - embargo <= g < lo:
                continue
            train.append(i)
        if not train:
            return out, True
        out.append((train, test))
    return out, False


def test_split(case, ctx):
    lay = Layout(case["layout"])
    number = {"int": int, "int64": np.int64}[case.get("number", "int")]
    folds, purge, embargo = (number(case[key]) for key in ("folds", "purge", "embargo"))
    # without groups there is nothing for a frequency to apply to
    freq = case["layout"]["freq"] if lay.groups is None and case["freq_anyway"] else lay.freq
    kf = TimeAwareKFold(n_folds=folds, n_embargo=embargo, n_purge=purge, look_forward=case["look_forward"], freq=freq)
    inputs = [lay.X, lay.groups] + ([] if lay.y is None else [lay.y])
    snaps = snapshot(*inputs)
    what = "split"
    if lay.n < folds:
        rejects(lambda: list(kf.split(lay.X, lay.y, lay.groups)), ValueError, "fewer samples than folds")
        return
    want, want_error = reference(lay.units, folds, purge, embargo, case["look_forward"])
    got, error = consume(kf.split(lay.X, lay.y, lay.groups))
    too_big = purge + embargo >= lay.n or purge + embargo > lay.n - lay.n // folds
    if too_big and isinstance(error, ValueError) and not got:
        ctx.label("rejected settings")
        return
    compare(got, error, want, want_error, lay.n, what)
    tied = len(set(lay.units)) < lay.n
    ctx.nontrivial(len(want) > 0 and (tied or purge or embargo))
    ctx.label(case["layout"]["kind"], "look_forward" if case["look_forward"] else "all", "tied" if tied else "distinct")
    expected = folds - 1 if case["look_forward"] else folds
    ensure(kf.get_n_splits() == expected and kf.get_n_splits(lay.X, lay.y, lay.groups) == expected,
           f"get_n_splits is {kf.get_n_splits()}, expected {expected}")
    if error is None:
        ensure(len(got) == expected, f"{len(got)} splits, announced {expected}")
    if case["order"] == "twice":
        again, error = consume(kf.split(lay.X, groups=lay.groups))
        compare(again, error, want, want_error, lay.n, "second split")
    elif case["order"] == "interleaved":
        a, b = kf.split(lay.X, lay.y, lay.groups), kf.split(lay.X, None, lay.groups)
        res_a, res_b, err_a, err_b = [], [], None, None
        for _ in range(folds + 1):
            try:
                res_a.append(next(a))
            except StopIteration:
                pass
            except Exception as e:
                err_a = e
            try:
                res_b.append(next(b))
            except StopIteration:
                pass
            except Exception as e:
                err_b = e
        compare(res_a, err_a, want, want_error, lay.n, "interleaved split 1")
        compare(res_b, err_b, want, want_error, lay.n, "interleaved split 2")
    unchanged(inputs, snaps, what)


def large_units(case):
    """A long history: ties and gaps at random, or one group per sample."""
    r = rng(case["seed"])
    if case["plain"]:
        return None, np.arange(case["n"])
    units = np.cumsum(r.choice([0, 1, 1, 3], case["n"])) + int(r.integers(-10**6, 10**6))
    return units, units


def test_large(case, ctx):
    n, folds, purge, embargo = (case[k] for k in ("n", "folds", "purge", "embargo"))
    groups, units = large_units(case)
    X = np.zeros((n, 1))
    kf = TimeAwareKFold(n_folds=folds, n_embargo=embargo, n_purge=purge, look_forward=case["look_forward"])
    got = list(kf.split(X, None, groups))
    sizes = np.full(folds, n // folds) + (np.arange(folds) < n % folds)
    fold = np.repeat(np.arange(folds), sizes)
    fold = fold[np.searchsorted(units, units, side="left")]  # the fold of the first sample of the group
    start = 1 if case["look_forward"] else 0
    ensure(len(got) == folds - start, f"{len(got)} splits of {n} samples, expected {folds - start}")
    for f, (train, test) in zip(range(start, folds), got):
        in_test = fold == f
        lo, hi = units[in_test][0], units[in_test][-1]
        ok = ~in_test & ~((units > hi) & (units <= hi + purge)) & ~((units < lo) & (units >= lo - embargo))
        if case["look_forward"]:
            ok &= units <= lo
        for have, want, what in ((train, np.flatnonzero(ok), "training"), (test, np.flatnonzero(in_test), "test")):
            ensure(np.array_equal(np.asarray(have), want), f"fold {f} of {n} samples: {len(have)} {what} samples, expected {len(want)}, or others")
    ctx.nontrivial()


large_case = st.fixed_dictionaries({
    "n": st.one_of(st.integers(300, 5000), st.sampled_from([32768, 40000, 65536, 70001, 140000])), "folds": st.integers(2, 6),
    "purge": st.integers(0, 500), "embargo": st.integers(0, 500), "look_forward": st.booleans(), "plain": st.booleans(), "seed": seeds()})
EXAMPLES = ()
SUBS = [
    Sub("split", case_st, test_split, quick=4000, examples=EXAMPLES),
    Sub("large", large_case.filter(lambda c: c["purge"] + c["embargo"] < c["n"] // c["folds"] // 3), test_large, quick=40),
]
