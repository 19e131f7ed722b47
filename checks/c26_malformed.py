"""C26: malformed input is rejected before any result is produced."""

import inspect

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.distance as qd
import quantfinlib.sim as qs
from quantfinlib.clustering import HC
from quantfinlib.clustering.hierarchical import optimize_n_clusters
from quantfinlib.clustering.metrics import gap_statistic, silhouette_tstat
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.distance.information import compute_entropies
from quantfinlib.sim._base import _make_cor_from_upper_tri
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
from quantfinlib.util import validate_frame_or_2Darray, validate_series_or_1Darray
from checks import featlib as fl
from pbt.core import Sub, ensure, identical, rejects, rng, seeds
from pbt.gen import random_cor

PROPERTY = "C26"
RULE = "one argument of an otherwise valid call is malformed, and the valid call itself was accepted"
ASSUMPTIONS = [
    "the documented kinds are ValueError for the validating decorators, splitters and models, TypeError for features and the "
    "container checks of splitters, AssertionError (or ValueError) for method names, lengths and distance matrices",
    "correlation matrices of simulation models are rejected for not being positive definite (a Cholesky factor must exist)",
]
SOFT = (AssertionError, ValueError, NotImplementedError)


# ------------------------------------------------------------------------------------------------ decorators
BAD_1D = {
    "list": lambda v: list(v), "tuple": lambda v: tuple(v), "float": lambda v: 1.5, "string": lambda v: "abc",
    "frame": lambda v: pd.DataFrame({"a": v}), "index": lambda v: pd.Index(v), "dict": lambda v: {"a": 1.0},
    "2d": lambda v: np.asarray(v).reshape(-1, 1), "row": lambda v: np.asarray(v).reshape(1, -1),
    "3d": lambda v: np.asarray(v).reshape(-1, 1, 1), "0d": lambda v: np.array(1.0),
    "one": lambda v: np.asarray(v)[:1], "empty": lambda v: np.asarray(v)[:0], "one_series": lambda v: pd.Series(v[:1]),
    "empty_series": lambda v: pd.Series(v[:0]), "bool": lambda v: True, "false": lambda v: False, "zero": lambda v: 0,
    "empty_list": lambda v: [], "generator": lambda v: (x for x in v), "numpy_scalar": lambda v: np.float64(2.0),
}
BAD_2D = {
    "list": lambda m: m.tolist(), "tuple": lambda m: tuple(map(tuple, m)), "float": lambda m: 1.5, "string": lambda m: "abc",
    "series": lambda m: pd.Series(m[:, 0]), "1d": lambda m: m[:, 0], "3d": lambda m: m[:, :, None], "0d": lambda m: np.array(1.0),
    "one_column": lambda m: m[:, :1], "one_column_frame": lambda m: pd.DataFrame(m[:, :1]), "no_column": lambda m: m[:, :0],
    "no_column_frame": lambda m: pd.DataFrame(m[:, :0]), "index": lambda m: pd.Index(m[:, 0]), "dict": lambda m: {0: m[:, 0]},
    "bool": lambda m: True, "false": lambda m: False, "empty_list": lambda m: [], "row": lambda m: m[0],
}


class Call:
    """A function with a generated signature that records how it was called."""

    def __init__(self, kinds, defaults, doc):
        self.calls = []
        self.result = object()
        params, names = [], []
        for i, k in enumerate(kinds):
            name = f"p{i}"
            names.append(name)
            d = inspect.Parameter.empty if defaults[i] == "required" else f"default{i}"
            if defaults[i] == "none":
                d = None
            params.append((name, k, d))
        self.names = names
        src = []
        order = {"positional": 0, "normal": 1, "keyword": 2}
        params.sort(key=lambda p: (order[p[1]], p[2] is not inspect.Parameter.empty and order[p[1]] < 2))
        seen_default, last = False, None
        for name, k, d in params:
            if last == "positional" and k != "positional":
                src.append("/")
            if k == "keyword" and last != "keyword":
                src.append("*")
                seen_default = False
            if d is not inspect.Parameter.empty:
                seen_default = True
            has = d is not inspect.Parameter.empty or (seen_default and k != "keyword")
            src.append(f"{name}={None if d is inspect.Parameter.empty else d!r}" if has else name)
            last = k
        if last == "positional":
            src.append("/")
        env = {"self": self}
        exec(  # a plain function, so that the decorators see a real signature
            f"def generated({', '.join(src)}):\n    {doc!r}\n    self.calls.append(({', '.join(names)},))\n    return self.result\n", env
        )
        self.fn = env["generated"]
        self.sig = inspect.signature(self.fn)
        self.order = [p.name for p in self.sig.parameters.values()]


def decorator_test(case, ctx):
    frames = case["frames"]
    deco = validate_frame_or_2Darray if frames else validate_series_or_1Darray
    bad_kinds = BAD_2D if frames else BAD_1D
    r = rng(case["seed"])
    target = Call(case["kinds"], case["defaults"], case["doc"])
    names = target.names
    checked = [n for i, n in enumerate(names) if case["checked"][i]]
    target.fn.tag = target  # attributes of the function belong to it
    wrapped = deco(*checked)(target.fn)
    ensure(getattr(wrapped, "tag", None) is target, "lost an attribute of the function")
    ensure(wrapped.__name__ == "generated" and wrapped.__doc__ == target.fn.__doc__, "lost the metadata of the function")
    ensure(inspect.signature(wrapped) == target.sig, f"signature {inspect.signature(wrapped)}, expected {target.sig}")
    ensure(wrapped.__module__ == target.fn.__module__ and wrapped.__qualname__ == target.fn.__qualname__, "lost the metadata")

    n = int(r.integers(2, 6))
    m = r.standard_normal((n, int(r.integers(2, 4))))

    def good(name, i):
        if name not in checked:
            return ["anything", [1], 5, None, "x"][i % 5]
        if frames:
            return [m, pd.DataFrame(m), m[:1], pd.DataFrame(m.astype(str)), None][i % 5]
        return [m[:, 0], pd.Series(m[:, 0]), np.arange(2), pd.Series(["a", "b"], index=[3, 3]), None][i % 5]

    values, given = {}, []
    for i, name in enumerate(target.order):
        p = target.sig.parameters[name]
        if p.default is not inspect.Parameter.empty and case["omit"][i]:
            continue
        values[name] = good(name, case["good"][i])
        given.append(name)

    def call(vals):
        args, kwargs = [], {}
        positional = True
        for i, name in enumerate(target.order):
            p = target.sig.parameters[name]
            if name not in vals:
                positional = False
                continue
            if p.kind is p.POSITIONAL_ONLY:
                if not positional:
                    continue  # cannot be passed without the ones before it
                args.append(vals[name])
            elif p.kind is p.KEYWORD_ONLY or not positional or case["by_keyword"][i]:
                kwargs[name] = vals[name]
                positional = False
            else:
                args.append(vals[name])
        return args, kwargs

    args, kwargs = call(values)
    bound = target.sig.bind(*args, **kwargs)
    bound.apply_defaults()
    before = len(target.calls)
    out = wrapped(*args, **kwargs)
    ensure(out is target.result, "the return value was not passed through")
    ensure(len(target.calls) == before + 1, f"the function was called {len(target.calls) - before} times")
    got = target.calls[-1]
    for name, g in zip(names, got):
        w = bound.arguments[name]
        ensure(g is w or (isinstance(w, (int, str)) and g == w), f"argument {name} was not passed through: {g!r} instead of {w!r}")
    # one checked argument is malformed
    passed = [n for n in checked if n in target.sig.bind(*args, **kwargs).arguments]
    for name in passed:
        for kind in case["bad"]:
            if kind not in bad_kinds:
                continue
            bad = bad_kinds[kind](m if frames else m[:, 0])
            a, k = call({**values, name: bad})
            before = len(target.calls)
            rejects(lambda: wrapped(*a, **k), (ValueError,), f"{deco.__name__}({', '.join(checked)}): {kind} for {name}")
            ensure(len(target.calls) == before, f"{kind} for {name}: the function was called before the input was rejected")
            ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ information measures
def information_test(case, ctx):
    r = rng(case["seed"])
    n = case["n"]
    x, y = r.standard_normal(n), r.standard_normal(n)
    fns = {"mutual_info": qd.mutual_info, "var_info": qd.var_info, "kl": qd.kl_divergence_xy, "entropies": compute_entropies}
    fn = fns[case["fn"]]
    bins = case["bins"] if case["bins"] or case["fn"] != "entropies" else 3
    kw = {"bins": bins} if bins else {}
    if case["container"] == "series":
        x, y = pd.Series(x), pd.Series(y)
    v = fn(x, y, **kw)
    ensure(np.all(np.isfinite(np.asarray(v))) or case["fn"] == "kl", f"{case['fn']} of {n} observations: {v}")
    kind = case["bad"]
    bad = BAD_1D[kind](np.asarray(x))
    pair = {"x": x, "y": y, case["which"]: bad}
    if case["by_keyword"]:
        call = lambda: fn(x=pair["x"], y=pair["y"], **kw)  # noqa: E731
    else:
        call = lambda: fn(pair["x"], pair["y"], **kw)  # noqa: E731
    rejects(call, (ValueError,), f"{case['fn']}: {kind} for {case['which']}")
    if case["fn"] != "kl":
        longer = np.append(np.asarray(y), 0.0)
        rejects(lambda: fn(x, longer, **kw), (ValueError,), f"{case['fn']}: different lengths")
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ matrices
def matrix_test(case, ctx):
    r = rng(case["seed"])
    n, m = case["n"], case["m"]
    X = r.standard_normal((n, m))
    C = random_cor(m, case["seed"])
    frame = case["container"] == "frame"
    wrap = (lambda a: pd.DataFrame(a)) if frame else (lambda a: a)
    what = case["what"]
    bad = BAD_2D[case["bad"]]
    method = ("mutual_info", "var_info")[case["pick"] % 2]
    cmethod = ("pearson", "spearman")[case["pick"] % 2]
    dmethod = ("angular", "abs_angular", "squared_angular")[case["pick"] % 3]
    if what == "info":
        qd.get_info_distance_matrix(wrap(X), method=method)
        rejects(lambda: qd.get_info_distance_matrix(bad(X), method=method), (ValueError,), f"information matrix of {case['bad']}")
        rejects(lambda: qd.get_info_distance_matrix(wrap(X), case["name"]), SOFT, f"information method {case['name']!r}")
        rejects(lambda: qd.get_info_distance_matrix(wrap(X), method=cmethod), SOFT, f"information method {cmethod!r}")
    elif what == "corr":
        qd.get_corr_distance_matrix(wrap(X), cmethod, dmethod)
        rejects(lambda: qd.get_corr_distance_matrix(bad(X), cmethod, dmethod), (ValueError,), f"correlation distances of {case['bad']}")
        rejects(lambda: qd.get_corr_distance_matrix(X=bad(X), corr_to_dist_method=dmethod), (ValueError,), f"{case['bad']} by keyword")
        rejects(lambda: qd.get_corr_distance_matrix(wrap(X), case["name"], dmethod), SOFT, f"correlation method {case['name']!r}")
        rejects(lambda: qd.get_corr_distance_matrix(wrap(X), "kendall", dmethod), SOFT, "correlation method kendall")
        rejects(lambda: qd.get_corr_distance_matrix(wrap(X), cmethod, case["name"]), SOFT, f"distance method {case['name']!r}")
    elif what == "corr_to_dist":
        corr_to_dist(wrap(C), dmethod)
        rejects(lambda: corr_to_dist(bad(C), dmethod), (ValueError, AssertionError), f"corr_to_dist of {case['bad']}")
        rejects(lambda: corr_to_dist(wrap(C), case["name"]), SOFT, f"distance method {case['name']!r}")
        A = C.copy()
        i, j = int(r.integers(0, m - 1)), m - 1
        A[i, j] += 0.05
        rejects(lambda: corr_to_dist(wrap(A), dmethod), SOFT, "asymmetric correlations")
        A = C.copy()
        k = int(r.integers(0, m))
        A[k, k] = r.choice([0.9, 1.1, 0.0])
        rejects(lambda: corr_to_dist(wrap(A), dmethod), SOFT, "a diagonal other than 1")
        rejects(lambda: corr_to_dist(wrap(C[:-1, :]) if m > 2 else wrap(np.vstack([C, C[:1]])), dmethod), SOFT, "not square")
    elif what == "divergence":
        P, Q = C @ C + 0.1 * np.eye(m), C
        B = Q.copy()
        i, j = int(r.integers(0, m - 1)), m - 1
        B[i, j] = B[j, i] = 1.5  # |correlation| above 1: indefinite
        N = -P if m % 2 else P - (np.max(np.linalg.eigvalsh(P)) * 0.5) * np.eye(m)
        for fn in (qd.log_det_divergence, qd.von_neuman_divergence):
            fn(P, Q)
            for b in (B, -P, N if np.min(np.linalg.eigvalsh(N)) < -1e-3 else -P):
                rejects(lambda: fn(b, Q), (AssertionError, ValueError), f"{fn.__name__}: first matrix not positive definite")
                rejects(lambda: fn(P, b), (AssertionError, ValueError), f"{fn.__name__}: second matrix not positive definite")
    else:  # clustering
        D = np.sqrt((1 - C) / 2)
        np.fill_diagonal(D, 0)
        labels = r.integers(0, 2, m)
        labels[0], labels[-1] = 0, 1
        if case["pick"] % 2:
            labels = pd.Series(labels)
        if m > 2:
            silhouette_tstat(wrap(D), labels)
            gap_statistic(wrap(D), labels, nb=2, random_state=1)
            longer = np.append(np.asarray(labels), 0)
            for fn in (silhouette_tstat, gap_statistic):
                rejects(lambda: fn(bad(D), labels), (ValueError,), f"{fn.__name__}: {case['bad']} as distances")
                b1 = BAD_1D[case["bad1"]](np.asarray(labels))
                rejects(lambda: fn(wrap(D), b1), (ValueError,), f"{fn.__name__}: {case['bad1']} as labels")
                rejects(lambda: fn(wrap(D), longer), SOFT, f"{fn.__name__}: one label too many")
                rejects(lambda: fn(wrap(D), np.asarray(labels)[:-1]), SOFT, f"{fn.__name__}: one label too few")
        hc = HC(X=wrap(X))
        ensure(np.shape(hc.linkage) == (m - 1, 4), f"linkage {np.shape(hc.linkage)}")
        rejects(lambda: HC(X=wrap(X), codependence_method=case["name"]), ValueError, f"codependence {case['name']!r}")
        for c in ("pearson-correlation", "spearman-correlation", "var_info"):
            rejects(lambda: HC(codependence_method=c), ValueError, f"HC without data ({c})")
        rejects(lambda: HC(corr=wrap(C), codependence_method="var_info"), ValueError, "var_info with correlations only")
        rejects(lambda: HC(X=bad(X)), (ValueError, AssertionError), f"HC of {case['bad']}")
        rejects(lambda: optimize_n_clusters(hc.linkage, hc.dist, metric=case["name"]), (ValueError,), f"metric {case['name']!r}")
    ctx.label(what)
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ splitters
def unsorted(g, r):
    """Swap one strictly increasing pair of a sorted list."""
    g = list(g)
    i = int(r.integers(0, len(g) - 1))
    if g[i] == g[i + 1]:
        g[i + 1 :] = [v + 1 for v in g[i + 1 :]]
    g[i], g[i + 1] = g[i + 1], g[i]
    return g


def splitter_test(case, ctx):
    r = rng(case["seed"])
    n = case["n"]
    X = r.standard_normal((n, 2))
    y = r.standard_normal(n)
    units = np.cumsum(r.integers(0, 2, n)) if case["ties"] else np.arange(n)
    if case["dated"]:
        base = pd.Timestamp("2020-01-01")
        groups = pd.DatetimeIndex([base + pd.Timedelta(days=int(u)) for u in units])
        freq = "D"
        bad_groups = pd.DatetimeIndex([base + pd.Timedelta(days=int(u)) for u in unsorted(units, r)])
    else:
        groups, freq = np.asarray(units, dtype=case["dtype"]), None
        bad_groups = np.asarray(unsorted(units, r), dtype=case["dtype"])
    if case["series"]:
        groups, bad_groups = pd.Series(groups), pd.Series(bad_groups, index=r.permutation(n))
    kf = case["splitter"] == "kfold"
    emb, pur = case["embargo"], case["purge"]

    def make(**kw):
        if kf:
            return TimeAwareKFold(**{**dict(n_folds=3, n_embargo=emb, n_purge=pur, freq=freq, look_forward=case["flag"]), **kw})
        return WalkForward(**{**dict(n_embargo=emb, n_purge=pur, train_window=4, test_window=2, freq=freq,
                                     split_type="rolling" if case["flag"] else "expanding"), **kw})

    # construction
    make(n_embargo=0, n_purge=0)
    for name in ("n_embargo", "n_purge"):
        for v in (-1, -5, np.int64(-2), pd.Timedelta(days=-1), pd.Timedelta(-1)):
            rejects(lambda: make(**{name: v}), (ValueError,), f"{name}={v!r}")
        for v in (1.5, "2", None, [1], 0.0, np.float64(1)):
            rejects(lambda: make(**{name: v}), (TypeError,), f"{name}={v!r}")
    if kf:
        for v in (1, 0, -3, 2.5, "3", None):
            rejects(lambda: make(n_folds=v), (ValueError,), f"n_folds={v!r}")
    else:
        for v in ("Rolling", "", "expand", None, 1, case["name"]):
            rejects(lambda: make(split_type=v), (ValueError,), f"split_type={v!r}")
        for w in ("train_window", "test_window"):
            rejects(lambda: list(make(**{w: 0}).split(X, y, groups)), (ValueError,), f"{w}=0")
            rejects(lambda: list(make(**{w: -2}).split(X, y, groups)), (ValueError,), f"{w}=-2")
    # splitting
    s = make(n_embargo=0, n_purge=0)

    def split(X=X, y=y, groups=groups):
        out = []
        for tr, te in s.split(X, y, groups):
            out.append((tr, te))
        return out

    accepted = True
    try:
        split()
    except ValueError as e:  # a group that spans a whole fold
        ensure(kf and case["ties"], f"a valid split was rejected: {e}")
        accepted = False
    for v in (X.tolist(), pd.Series(y), None, "X", 5, tuple(map(tuple, X))):
        rejects(lambda: split(X=v), (TypeError,), f"X of type {type(v).__name__}")
    for v in (y.tolist(), pd.DataFrame(X), "y", 5, tuple(y), pd.Index(y)):
        rejects(lambda: split(y=v), (TypeError,), f"y of type {type(v).__name__}")
    for v in (list(units), tuple(units), "g", 5, pd.DataFrame({"g": units})):
        rejects(lambda: split(groups=v), (TypeError,), f"groups of type {type(v).__name__}")
    rejects(lambda: split(groups=bad_groups), (ValueError,), f"unsorted groups {list(bad_groups)[:12]}")
    rejects(lambda: split(groups=groups[::-1] if units[0] != units[-1] else bad_groups), (ValueError,), "decreasing groups")
    if kf:
        longer = groups.iloc[:-1] if case["series"] else groups[:-1]
        rejects(lambda: split(groups=longer), (AssertionError, ValueError), "one group too few")
        rejects(lambda: list(make(n_folds=n + 1).split(X, y)), (ValueError,), "more folds than samples")
        rejects(lambda: list(make(n_purge=n, n_embargo=0).split(X, y)), (ValueError,), "purging everything")
        rejects(lambda: list(make(n_purge=0, n_embargo=n).split(X, y)), (ValueError,), "embargoing everything")
    ctx.label(case["splitter"])
    ctx.nontrivial(accepted)


# ------------------------------------------------------------------------------------------------ simulation models
MODELS = {"bm": qs.BrownianMotion, "gbm": qs.GeometricBrownianMotion, "ou": qs.OrnsteinUhlenbeck}


def sim_test(case, ctx):
    r = rng(case["seed"])
    cls = MODELS[case["model"]]
    m = case["m"]
    C = random_cor(m, case["seed"])
    vol = list(r.uniform(0.1, 0.5, m))
    par = {"ou": {"mean": list(r.uniform(1, 2, m)), "mrr": list(r.uniform(1, 2, m))}}.get(
        case["model"], {"drift": list(r.uniform(0, 0.1, m))})
    model = cls(vol=vol, cor=C, **par)
    identical(np.asarray(model.cor), C, "correlation of the model")
    for bad in ("above_one", "singular_minus", "negative"):
        B = C.copy()
        i, j = 0, m - 1
        if bad == "above_one":
            B[i, j] = B[j, i] = r.choice([-1.2, 1.01, 3.0])
        elif bad == "singular_minus":
            B = C - (np.linalg.eigvalsh(C)[0] + 0.05) * np.eye(m)
        else:
            B = -C
        rejects(lambda: cls(vol=vol, cor=B, **par), (ValueError,), f"correlation matrix not positive definite ({bad})")
        rejects(lambda: cls(vol=vol, cor=B.tolist(), **par), (ValueError,), f"list not positive definite ({bad})")
    rejects(lambda: cls(vol=vol, cor=C[:-1], **par), (ValueError,), "correlation matrix not square")
    for bad in ("abc", None, (0.1, 0.2), {"a": 1}):
        rejects(lambda: cls(vol=bad), (ValueError,), f"volatility {bad!r}")
        rejects(lambda: cls().fit(bad), (ValueError,), f"fit of {bad!r}")
    steps, paths = case["steps"], case["paths"]
    x = np.exp(np.cumsum(0.1 * r.standard_normal((30, m)), axis=0))
    fitted = case["fitted"]
    if fitted:
        data = x
        if fitted == "frame":
            data = pd.DataFrame(x, pd.date_range("2020-01-01", periods=30, freq="D"), [f"c{i}" for i in range(m)])
        model.fit(data)
    path = dict(num_steps=steps, num_paths=paths, random_state=3)
    model.path_sample(x0=1.0 if not fitted else None, **path)
    for v in (case["name"], "First", "", "start", "lastt"):
        if v not in ("first", "last"):
            rejects(lambda: model.path_sample(x0=v, **path), (ValueError,), f"x0={v!r}")
    if not fitted:
        for v in ("first", "last"):
            rejects(lambda: model.path_sample(x0=v, **path), (ValueError,), f"x0={v!r} of an unfitted model")
        rejects(lambda: model.path_sample(x0=1.0, label_start="2020-01-01", **path), SOFT, "label_start without a frequency")
        rejects(lambda: model.path_sample(x0=1.0, label_freq="D", **path), SOFT, "label_freq without a start")
    for v in (0, -0.1, 0.0, -1):
        rejects(lambda: model.path_sample(x0=1.0, dt=v, **path), (AssertionError, ValueError), f"dt={v}")
    cols = [f"k{i}" for i in range(m)]
    model.path_sample(x0=1.0, columns=cols, **path)
    rejects(lambda: model.path_sample(x0=1.0, columns=cols + ["extra"], **path), (AssertionError, ValueError), "one column too many")
    rejects(lambda: model.path_sample(x0=1.0, columns=cols[:-1], **path), (AssertionError, ValueError), "one column too few")
    rejects(lambda: model.path_sample(x0=1.0, label_start="2020-01-01", label_freq="Banana", **path), (ValueError,), "label_freq Banana")
    hourly = pd.DataFrame(x, pd.date_range("2020-01-01", periods=30, freq="h"))
    rejects(lambda: cls().fit(hourly), (ValueError,), "fit of hourly data without dt")
    rejects(lambda: cls(vol=vol, cor=C, **par).nll(hourly), (ValueError,), "likelihood of hourly data without dt")
    cls().fit(hourly, dt=1 / 8760)
    ctx.label(case["model"], f"fitted={fitted}")
    ctx.nontrivial()


def triangular_test(case, ctx):
    values = case["values"]
    n = len(values)
    d = (1 + (1 + 8 * n) ** 0.5) / 2
    forms = [values, np.array(values, dtype=float).reshape(1, -1), np.array(values, dtype=float).reshape(-1, 1),
             pd.DataFrame([values])]
    for f in forms:
        if d == int(d):
            got = _make_cor_from_upper_tri(f)
            d_ = int(d)
            want = np.eye(d_)
            want[np.triu_indices(d_, 1)] = values
            want = want + np.triu(want, 1).T
            identical(got, want, f"correlations from {values}")
        else:
            rejects(lambda: _make_cor_from_upper_tri(f), (ValueError,), f"{n} values as an upper triangle")
    two = np.ones((2, 3))
    rejects(lambda: _make_cor_from_upper_tri(two), (ValueError,), "a 2x3 matrix as an upper triangle")
    ctx.nontrivial(n > 1)


def triangular_long_test(case, ctx):
    """Lists whose length is (almost) that of an upper triangle of many variates."""
    d = case["dim"]
    m = d * (d - 1) // 2
    for n in (m - 1, m, m + 1, m + case["extra"]):
        values = np.round(np.linspace(-0.5, 0.5, n), 3).reshape(1, -1)
        if n == m:
            got = _make_cor_from_upper_tri(values)
            want = np.zeros((d, d))
            want[np.triu_indices(d, 1)] = values[0]
            identical(got, want + want.T + np.eye(d), f"correlations of {d} variates")
        else:
            rejects(lambda: _make_cor_from_upper_tri(values), (ValueError,), f"{n} values as an upper triangle")
    ctx.nontrivial()


# ------------------------------------------------------------------------------------------------ features
FEATURES = [f for f in fl.F if f.name != "edge_spread"]
BAD_SERIES = {
    "list": lambda v: list(v), "tuple": lambda v: tuple(v), "float": lambda v: 1.5, "none": lambda v: None, "string": lambda v: "ts",
    "frame": lambda v: pd.DataFrame({"a": v}), "index": lambda v: pd.Index(v), "dict": lambda v: dict(enumerate(v)),
    "integer": lambda v: 3,
}


def feature_test(case, ctx):
    f = FEATURES[case["feature"] % len(FEATURES)]
    n = case["n"]
    spec = {"n": n, "seed": case["seed"], "kind": "walk"}
    data = fl.make_data(spec)
    names = [a for a, _ in f.args]
    vals = [np.array(data[role], dtype=float) for _, role in f.args]
    if case["series"]:
        vals = [pd.Series(v) for v in vals]
    params = {k: max(lo, 2) for k, (lo, _) in f.params.items() if k != "multiplier"}
    with fl.inline_workers():
        out = f.fn(*vals, **params)
        ensure(len(out) == n, f"{f.name}: {len(out)} values for {n} observations")
        i = case["which"] % len(vals)
        for kind in case["bad"]:
            bad = list(vals)
            bad[i] = BAD_SERIES[kind](np.asarray(vals[i]))
            rejects(lambda: f.fn(*bad, **params), (TypeError,), f"{f.name}: {kind} for {names[i]}")
        if len(vals) > 1:
            mixed = list(vals)
            mixed[i] = np.asarray(mixed[i]) if case["series"] else pd.Series(mixed[i])
            rejects(lambda: f.fn(*mixed, **params), (TypeError,), f"{f.name}: {names[i]} in another container than the others")
            rejects(lambda: f.fn(*vals[:-1], **params), (TypeError,), f"{f.name}: without {names[-1]}")
        rejects(lambda: f.fn(*vals, **params, no_such_parameter=3), (TypeError,), f"{f.name}: unknown parameter")
    ctx.label(f.name)
    ctx.nontrivial()


name = st.sampled_from(["", "Pearson", "angular ", "unknown", "xyz", "VAR_INFO", "silhouette_", "none", "Gap", "pearson_", "var-info"])
param_kind = st.sampled_from(["normal", "normal", "keyword", "positional"])
SUBS = [
    Sub("decorators", st.integers(1, 5).flatmap(lambda k: st.fixed_dictionaries(dict(
        frames=st.booleans(), seed=seeds(), doc=st.sampled_from(["Does something.", "x"]),
        kinds=st.lists(param_kind, min_size=k, max_size=k),
        defaults=st.lists(st.sampled_from(["required", "required", "text", "none"]), min_size=k, max_size=k),
        checked=st.lists(st.booleans(), min_size=k, max_size=k), omit=st.lists(st.booleans(), min_size=k, max_size=k),
        good=st.lists(st.integers(0, 4), min_size=k, max_size=k), by_keyword=st.lists(st.booleans(), min_size=k, max_size=k),
        bad=st.lists(st.sampled_from(sorted(set(BAD_1D) | set(BAD_2D))), min_size=3, max_size=6)))), decorator_test, quick=500),
    Sub("information", st.fixed_dictionaries(dict(
        n=st.integers(2, 30), seed=seeds(), fn=st.sampled_from(["mutual_info", "var_info", "kl", "entropies"]),
        bins=st.sampled_from([None, None, 2, 5]), container=st.sampled_from(["array", "series"]),
        which=st.sampled_from(["x", "y"]), by_keyword=st.booleans(), bad=st.sampled_from(sorted(BAD_1D)))), information_test, quick=300),
    Sub("matrices", st.fixed_dictionaries(dict(
        n=st.integers(8, 30), m=st.integers(2, 5), seed=seeds(), container=st.sampled_from(["array", "frame"]),
        what=st.sampled_from(["info", "corr", "corr_to_dist", "divergence", "clustering"]), pick=st.integers(0, 5), name=name,
        bad=st.sampled_from(sorted(BAD_2D)), bad1=st.sampled_from(sorted(BAD_1D)))), matrix_test, quick=250),
    Sub("splitters", st.fixed_dictionaries(dict(
        n=st.integers(9, 30), seed=seeds(), splitter=st.sampled_from(["kfold", "walk"]), ties=st.booleans(), dated=st.booleans(), dtype=st.sampled_from(["int64", "uint8", "uint64", "int8", "float64"]),
        series=st.booleans(), embargo=st.integers(0, 2), purge=st.integers(0, 2), flag=st.booleans(), name=name)), splitter_test, quick=200),
    Sub("models", st.fixed_dictionaries(dict(
        model=st.sampled_from(sorted(MODELS)), m=st.integers(2, 4), seed=seeds(), steps=st.integers(1, 6), paths=st.integers(1, 3),
        fitted=st.sampled_from([None, "array", "frame"]), name=name)), sim_test, quick=150),
    Sub("upper_triangles", st.fixed_dictionaries(dict(
        values=st.lists(st.floats(-0.9, 0.9), min_size=1, max_size=22))), triangular_test, quick=150),
    Sub("long_triangles", st.integers(5, 300).flatmap(lambda d: st.fixed_dictionaries(
        dict(dim=st.just(d), extra=st.integers(1, d - 1)))), triangular_long_test, quick=25),
    Sub("features", st.fixed_dictionaries(dict(
        feature=st.integers(0, len(FEATURES) - 1), n=st.integers(6, 30), seed=seeds(), series=st.booleans(), which=st.integers(0, 5),
        bad=st.lists(st.sampled_from(sorted(BAD_SERIES)), min_size=2, max_size=4))), feature_test, quick=300),
]
