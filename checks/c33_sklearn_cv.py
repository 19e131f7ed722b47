"""C33: the splitters work as cross-validators of scikit-learn: estimators see exactly the documented splits."""

import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, clone
from sklearn.model_selection import (
    GridSearchCV,
    RandomizedSearchCV,
    check_cv,
    cross_val_predict,
    cross_val_score,
    cross_validate,
    learning_curve,
    validation_curve,
)

from checks import c07_time_aware_kfold as c07
from checks import c08_walk_forward as c08
from checks.splitlib import Layout, layout
from pbt.core import Sub, ensure
from pbt.gen import snapshot, unchanged
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward

PROPERTY = "C33"
RULE = "at least two splits are used by scikit-learn, with ties, gaps, purging, embargoing or a splitter that was used before"
ASSUMPTIONS = [
    "X is an array or a DataFrame, y an array or a Series, as documented",
    "cross_val_predict is used where the test sets cover every sample once",
    "settings without any split are rejected by scikit-learn or by the splitter with ValueError",
]

LOG = []


class Recorder(BaseEstimator):
    """Writes down the samples it is fitted on, asked for and scored on. The first column of X is the number of the sample."""

    def __init__(self, alpha=0):
        self.alpha = alpha

    def _note(self, what, X, y):
        ids = np.asarray(X)[:, 0].astype(int).tolist()
        if y is not None:
            got = np.asarray(y).tolist()
            ensure(got == [2 * i + 1 for i in ids], f"{what}: the targets {got} do not belong to the samples {ids}")
        LOG.append((what, self.alpha, ids))
        return ids

    def fit(self, X, y=None):
        self._note("fit", X, y)
        self.fitted_ = True
        return self

    def predict(self, X):
        return np.array(self._note("predict", X, None), dtype=float) * 3

    def score(self, X, y=None):
        ids = self._note("score", X, y)
        return float(sum(ids) + self.alpha)


class Data:
    def __init__(self, spec):
        lay = Layout(spec)
        self.n, self.units, self.groups, self.freq = lay.n, lay.units, lay.groups, lay.freq
        ids = np.arange(lay.n)
        if isinstance(lay.X, pd.DataFrame):
            self.X = lay.X.copy()
            self.X.insert(0, "id", ids.astype(float))
        else:
            self.X = np.column_stack([ids.astype(float), lay.X])
        y = 2 * ids + 1
        self.y = pd.Series(y, index=lay.y.index) if isinstance(lay.y, pd.Series) else y


def expected(case, data):
    if case["splitter"] == "kfold":
        return c07.reference(data.units, case["folds"], case["purge"], case["embargo"], case["look_forward"])
    return c08.reference(data.units, case["train"], case["test"], case["embargo"], case["rolling"])


def seen(kind, alpha=0):
    return [ids for what, a, ids in LOG if what == kind and a == alpha]


def use(how, cv, d, want, case):
    """Runs scikit-learn and compares what the estimator saw."""
    X, y, g = d.X, d.y, d.groups
    trains, tests = [t for t, _ in want], [t for _, t in want]
    LOG.clear()
    if how == "predict" and sorted(i for t in tests for i in t) != list(range(d.n)):
        how = "validate"
    if how == "predict":
        out = cross_val_predict(Recorder(), X, y, groups=g, cv=cv)
        ensure(seen("predict") == tests, f"predictions for {seen('predict')}, expected {tests}")
        ensure(np.array_equal(out, 3.0 * np.arange(d.n)), f"cross-validated predictions {out} are not in the order of the samples")
    elif how == "score":
        out = cross_val_score(Recorder(), X, y, groups=g, cv=cv)
        ensure(out.tolist() == [float(sum(t)) for t in tests], f"scores {out} of the test sets {tests}")
    elif how == "learning":
        learning_curve(Recorder(), X, y, groups=g, cv=cv, train_sizes=[1.0])
        ensure(sorted(seen("fit")) == sorted(t[: max(len(x) for x in seen("fit"))] for t in trains),
               f"learning curve fitted on {seen('fit')}, expected {trains}")
        return how
    elif how == "curve":
        validation_curve(Recorder(), X, y, groups=g, cv=cv, param_name="alpha", param_range=[1, 2])
        for alpha in (1, 2):
            ensure(sorted(seen("fit", alpha)) == sorted(trains), f"validation curve fitted on {seen('fit', alpha)}, expected {trains}")
        return how
    elif how in ("grid", "clone", "random"):
        if how == "random":
            search = RandomizedSearchCV(Recorder(), {"alpha": [1, 2, 3]}, n_iter=3, cv=cv, refit=case["refit"], random_state=0)
        else:
            search = GridSearchCV(Recorder(), {"alpha": [1, 2, 3]}, cv=cv, refit=case["refit"])
        if how == "clone":
            search = clone(search)
        search.fit(X, y, groups=g)
        ensure(search.n_splits_ == len(want), f"the search reports {search.n_splits_} splits, expected {len(want)}")
        for alpha in (1, 2, 3):
            fits = seen("fit", alpha)
            extra = [list(range(d.n))] if case["refit"] and search.best_params_["alpha"] == alpha else []
            ensure(fits == trains + extra, f"{how} search with alpha {alpha} fitted on {fits}, expected {trains + extra}")
            ensure(seen("score", alpha) == tests, f"{how} search with alpha {alpha} scored on {seen('score', alpha)}, expected {tests}")
        return how
    else:
        out = cross_validate(Recorder(), X, y, groups=g, cv=cv, return_indices=True, return_estimator=True)
        got = [i.tolist() for i in out["indices"]["train"]], [i.tolist() for i in out["indices"]["test"]]
        ensure(got == (trains, tests), f"cross_validate used {got}, expected {(trains, tests)}")
        ensure(seen("score") == tests, f"scored on {seen('score')}, expected {tests}")
    ensure(seen("fit") == trains, f"fitted on {seen('fit')}, expected {trains}")
    return how


def test_sklearn(case, ctx):
    d = Data(case["layout"])
    if case["splitter"] == "kfold":
        cv = TimeAwareKFold(n_folds=case["folds"], n_embargo=case["embargo"], n_purge=case["purge"], look_forward=case["look_forward"], freq=d.freq)
    else:
        cv = WalkForward(n_embargo=case["embargo"], train_window=case["train"], test_window=case["test"], freq=d.freq,
                         split_type="rolling" if case["rolling"] else "expanding")
    ensure(check_cv(cv, d.y) is cv, "check_cv replaces the splitter")
    runs = [(case["first"], Data(dict(case["other"], kind=case["layout"]["kind"], freq=case["layout"]["freq"])))] if case["reuse"] else []
    runs.append((case["how"], d))
    for how, data in runs:
        want, error = expected(case, data)
        if not want and not error:
            # nothing to do, whatever scikit-learn makes of it
            ensure(cv.get_n_splits(data.X, data.y, data.groups) == 0, "get_n_splits of data without splits")
            ctx.label("no splits")
            return
        inputs = [data.X, data.y] + ([] if data.groups is None else [data.groups])
        snaps = snapshot(*inputs)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                n_splits = cv.get_n_splits(data.X, data.y, data.groups) if case["ask"] else None
                how = use(how, cv, data, want, case)
            except ValueError as e:
                small = data.n < case["folds"] or case["purge"] + case["embargo"] >= data.n - data.n // case["folds"]
                if error or not want or (case["splitter"] == "kfold" and small):
                    ctx.label("rejected")
                    return
                ensure(False, f"{how} with {len(want)} splits of {data.n} samples: ValueError: {e}")
        ensure(not error, f"{how}: ValueError expected after {len(want)} splits")
        if n_splits is not None:
            ensure(n_splits == len(want), f"get_n_splits with data is {n_splits}, expected {len(want)}")
        unchanged(inputs, snaps, how)
        ctx.label(how)
    tied = len(set(d.units)) < d.n
    ctx.nontrivial(len(want) >= 2 and (tied or case["embargo"] or case["reuse"] or case["purge"]))
    ctx.label(case["splitter"], case["layout"]["kind"])


USES = ["validate", "score", "predict", "grid", "clone", "random", "learning", "curve"]
small = st.integers(0, 3)
case_st = st.fixed_dictionaries(
    {
        "layout": layout(), "other": layout(20), "splitter": st.sampled_from(["kfold", "walk"]), "folds": st.integers(2, 6), "purge": small,
        "embargo": small, "look_forward": st.booleans(), "train": st.integers(1, 8), "test": st.integers(2, 8), "rolling": st.booleans(),
        "reuse": st.booleans(), "first": st.sampled_from(USES), "how": st.sampled_from(USES), "ask": st.booleans(), "refit": st.booleans(),
    }
)
SUBS = [Sub("sklearn", case_st, test_sklearn, quick=700)]
