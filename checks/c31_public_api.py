"""C31: the documented names import in every order and style, without side effects, and do the same thing."""

import contextlib
import gc
import importlib
import inspect
import io
import json
import logging
import os
import pkgutil
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap
from pbt.core import HarnessError, Sub, ensure, rng, seeds, violate
from pbt.forks import in_child

PROPERTY = "C31"
RULE = "import orders of at least three modules that start below the top-level package, or star imports"
ASSUMPTIONS = [
    "numpy, pandas and scipy may be imported before (fresh interpreters are sampled as well)",
    "the public names are those of the module documentation and of the package's own imports at the pinned commit",
]

# what the package documents or re-exports
API = {
    "quantfinlib": ["__version__"],
    "quantfinlib.sim": ["BrownianMotion", "GeometricBrownianMotion", "OrnsteinUhlenbeck", "QuasiRandom"],
    "quantfinlib.clustering": ["HC", "optimize_n_clusters", "gap_statistic", "silhouette_tstat"],
    "quantfinlib.datasets": ["load_equity_indices", "load_treasury_rates", "load_vix"],
    "quantfinlib.distance": [
        "corr_to_abs_angular_dist", "corr_to_angular_dist", "corr_to_squared_angular_dist", "pair_abs_angular_distance",
        "pair_angular_distance", "pair_squared_angular_distance", "compute_entropies", "kl_divergence_xy", "mutual_info",
        "var_info", "log_det_divergence", "von_neuman_divergence", "get_corr_distance_matrix", "get_info_distance_matrix"],
    "quantfinlib.feature": ["chu_stinchcombe_white_cusum_test"],
    "quantfinlib.feature.structural_breaks.cusumtest": ["chu_stinchcombe_white_cusum_test"],
    "quantfinlib.feature.indicators": [
        "rsi", "ewm_rsi", "macd", "macd_signal", "BollingerBands", "EwmBollingerBands", "KeltnerBands", "DonchianBands",
        "GenericBands", "rolling_mean", "rolling_std", "rolling_max", "rolling_min", "ewm_mean", "ewm_std",
        "average_true_range", "rolling_mom", "ewm_mom"],
    "quantfinlib.feature.micro_structure": [
        "get_becker_parkinson_volatility", "get_close_close_volatility", "get_cowrin_schultz_spread", "get_edge_spread",
        "get_garman_klass_volatility", "get_high_low_volatility", "get_rogers_satchell_volatility", "get_roll_measure",
        "get_roll_impact", "get_yang_zhang_volatility", "get_amihud_lambda", "get_hasbrouck_lambda", "get_kyle_lambda",
        "estimate_buy_volume", "get_vpin"],
    "quantfinlib.train_test_split": ["TimeAwareKFold", "WalkForward"],
    "quantfinlib.util": [
        "logger", "get_project_root", "configure_logger", "validate_series_or_1Darray", "validate_frame_or_2Darray",
        "to_numpy", "SeriesOrArray", "DataFrameOrArray", "ArrayLike"],
}
PACKAGES = sorted(API)


def modules():
    """All modules of the package, found in the files."""
    import quantfinlib

    return sorted(m.name for m in pkgutil.walk_packages(quantfinlib.__path__, "quantfinlib.", onerror=lambda _n: None))


def forget():
    """As if nothing of the package had been imported."""
    for k in [k for k in sys.modules if k == "quantfinlib" or k.startswith("quantfinlib.") or k in
              ("checks.catalog", "checks.featlib", "checks.simlib", "checks.splitlib")]:
        del sys.modules[k]


def state():
    root, lib = logging.getLogger(), logging.getLogger("quantfinlib")
    return {
        "numpy's random state": (np.random.get_state()[1].tobytes(), np.random.get_state()[2:]),
        "Python's random state": random.getstate(),
        "the warning filters": [tuple(map(str, f)) for f in warnings.filters],
        "numpy's error handling": tuple(sorted(np.geterr().items())),
        "numpy's print options": str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "pandas options": str(sorted((o, str(pd.get_option(o))) for o in pd._config.config._select_options("all"))),
        "the working directory": os.getcwd(),
        "the environment": dict(os.environ),
        "the files of the working directory": sorted(os.listdir(".")),
        "the root logger": (root.level, len(root.handlers), logging.root.manager.disable),
        "the library's handlers": [type(h).__name__ for h in lib.handlers if not isinstance(h, logging.NullHandler)],
        "the recursion limit": sys.getrecursionlimit(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "the module search path": list(sys.path),
        "the threads": threading.active_count(),
        "the excepthook": sys.excepthook is sys.__excepthook__,
    }


def star(package):
    ns = {}
    exec(f"from {package} import *", ns)
    return ns


def check_package(package, style, what):
    names = API[package]
    if style == "module":
        mod = importlib.import_module(package)
        got = {n: getattr(mod, n, None) for n in names}
    elif style == "from":
        ns = {}
        for n in names:
            exec(f"from {package} import {n}", ns)
        got = {n: ns[n] for n in names}
    else:
        ns = star(package)
        got = {n: ns.get(n) for n in names if not n.startswith("_")}
        mod = sys.modules[package]
        for n in getattr(mod, "__all__", []):
            ensure(isinstance(n, str) and hasattr(mod, n), f"{what}: {package}.__all__ holds {n!r}, which is not a name of the package")
    for n, v in got.items():
        ensure(v is not None, f"{what}: {package} has no {n} ({style})")
        if n.endswith("OrArray") or n in ("ArrayLike", "logger", "__version__"):
            continue
        ensure(callable(v), f"{what}: {package}.{n} is not callable")
    return got


def test_order(case, ctx):
    ops = case["ops"]

    def work():
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            out, err = io.StringIO(), io.StringIO()
            try:
                forget()
                names = modules_before
                before = state()
                seen = {}
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    for o in ops:
                        if o["style"] in ("plain", "star_module"):
                            m = names[o["which"] % len(names)]
                            importlib.import_module(m) if o["style"] == "plain" else star(m)
                        else:
                            p = PACKAGES[o["which"] % len(PACKAGES)]
                            for n, v in check_package(p, o["style"], "import").items():
                                ensure(seen.setdefault((p, n), v) is v, f"{p}.{n} is another object in another style of import")
                after = state()
                for k in before:
                    ensure(before[k] == after[k], f"importing changed {k}")
                ensure(out.getvalue() == "", f"importing printed {out.getvalue()[:80]!r}")
                # one object per name, whichever package gives it
                for p in PACKAGES:
                    check_package(p, "module", "after all imports")
                import quantfinlib.feature as qf
                import quantfinlib.feature.structural_breaks.cusumtest as qs

                ensure(qf.chu_stinchcombe_white_cusum_test is qs.chu_stinchcombe_white_cusum_test, "two CUSUM functions")
                # and the functions do the same thing
                import checks.catalog as cat

                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    return [cat.digest(cat.freeze(cat.run(specs_of(cat)[i]))) for i in wanted(case)]
            finally:
                os.chdir("/")

    modules_before = modules_cached()
    got = in_child(work)
    if not _DEFAULT:
        _DEFAULT.update(in_child(_default))
    ensure(got == [_DEFAULT[i] for i in wanted(case)], "results depend on the order of the imports")
    ctx.nontrivial(len(ops) >= 3 or any("star" in o["style"] for o in ops))
    ctx.label(*{o["style"] for o in ops})


def specs_of(cat):
    return [{"name": n, "seed": 1, "n": 20, "container": 1} for n in cat.CHEAP]


def wanted(case):
    return [int(i) for i in rng(case["seed"]).integers(0, N_CALLS, 3)]


def _default():
    """Results of the calls with the usual order of imports."""
    import checks.catalog as cat

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return {i: cat.digest(cat.freeze(cat.run(s))) for i, s in enumerate(specs_of(cat))}


N_CALLS = 100
_DEFAULT = {}
_MODULES = []


def modules_cached():
    """The modules; what they use of other packages is imported here, so that its side effects are not the library's."""
    if not _MODULES:
        names, others = in_child(_survey)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for k in others:
                try:
                    importlib.import_module(k)
                except Exception:
                    pass
        _MODULES.extend(names)
    return _MODULES


def _survey():
    names = modules()
    for m in names:
        try:
            importlib.import_module(m)
        except Exception:
            pass  # the cases find it
    return names, [k for k in sys.modules if k.split(".")[0] not in ("quantfinlib", "checks", "pbt", "__main__")]


op = st.fixed_dictionaries({"which": st.integers(0, 60), "style": st.sampled_from(["plain", "plain", "module", "from", "star", "star_module"])})
order_case = st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=8), "seed": st.integers(0, 1000)})


# ------------------------------------------------------------------------------------------------ fresh interpreters
def test_fresh(case, ctx):
    """In a new interpreter in which nothing has been imported, with warnings of the library itself as errors."""
    names = modules_cached()
    chosen = [names[w % len(names)] for w in case["which"]]
    package = PACKAGES[case["package"] % len(PACKAGES)]
    body = "\n".join(f"import {m}" for m in chosen) + f"\nfrom {package} import *\nprint('done')\n"
    env = dict(os.environ, PYTHONPATH=bootstrap.REPO)
    env.pop("PYTHONWARNINGS", None)
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([sys.executable, "-B", *case["flags"], "-c", body], capture_output=True, text=True, cwd=d, env=env, timeout=150)
        left = sorted(os.listdir(d))
    ensure(p.returncode == 0, f"import {', '.join(chosen)} and * from {package} in a new interpreter: {p.stderr[-600:]}")
    ensure(p.stdout == "done\n", f"importing printed {p.stdout[:100]!r}")
    ensure(left == [], f"importing left files {left}")
    ctx.nontrivial()


fresh_case = st.fixed_dictionaries(
    {"which": st.lists(st.integers(0, 60), min_size=1, max_size=4), "package": st.integers(0, 20),
     "flags": st.sampled_from([[], ["-O"], ["-OO"], ["-W", "error::SyntaxWarning"]])}
)


# ------------------------------------------------------------------------------------------------ names and calls
def test_signature(case, ctx):
    """Every documented parameter can be passed by keyword, in any order, with its default spelled out or left out."""
    import checks.catalog as cat
    from checks import featlib as fl

    feature = fl.F[case["feature"] % len(fl.F)]
    r = rng(case["seed"])
    data = fl.make_data({"n": 30, "seed": case["seed"], "kind": "walk"})
    args = {a: np.array(data[role], dtype=float) for a, role in feature.args}
    defaults = {k: (2 if k == "multiplier" else v[1]) for k, v in feature.params.items()}
    have = {k: v for k, v in defaults.items() if v is not None}
    if any(v is None for v in defaults.values()):
        have = {k: int(r.integers(feature.params[k][0], 12)) for k in defaults if k != "multiplier"} | (
            {"multiplier": 2} if "multiplier" in defaults else {})
    given = dict(have)
    everything = {**args, **given}
    order = [list(everything)[i] for i in r.permutation(len(everything))]
    with fl.inline_workers():
        shuffled = feature.fn(**{k: everything[k] for k in order})
        positional = feature.fn(*args.values(), **given)
    ensure(cat.freeze(shuffled) == cat.freeze(positional), f"{feature.name}: keywords in another order give another result")
    ctx.nontrivial(len(order) > 1)


def gap_counts(seed, hc, **kw):
    """The optimal numbers of clusters of several matrices without clear clusters, so that every argument matters."""
    import quantfinlib.clustering as qcl
    from scipy.cluster import hierarchy
    from scipy.spatial.distance import pdist, squareform

    r, out = rng(seed), []
    for i in range(7):
        n = int(r.integers(22, 34))
        x = r.standard_normal((n, 2))
        if i < 2:  # more pairs than the largest number of clusters
            x = np.repeat(r.standard_normal((27, 3)), 2, axis=0)
            x += 1e-6 * r.standard_normal(x.shape)
        D = squareform(pdist(x))
        if hc:
            out.append(qcl.HC(dist=D).get_optimal_nclusters(**kw))
        else:
            out.append(qcl.optimize_n_clusters(hierarchy.linkage(squareform(D), "average"), D, metric="gap", **kw))
    return np.array(out)


def default_entries(seed):
    """(name, call, documented defaults): the call takes any of the keywords."""
    import quantfinlib.clustering as qcl
    import quantfinlib.distance as qd
    import quantfinlib.math.cov as qm
    import quantfinlib.train_test_split as qt
    from checks import featlib as fl
    from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom
    from scipy.cluster import hierarchy
    from scipy.spatial.distance import squareform

    r = rng(seed)
    data = fl.make_data({"n": 60, "seed": seed, "kind": "walk"})
    out = []
    documented = {
        "rolling_mean": {"window": 20}, "rolling_std": {"window": 20}, "rolling_max": {"window": 20}, "rolling_min": {"window": 20},
        "rolling_mom": {"window": 20}, "ewm_mean": {"span": 20}, "ewm_std": {"span": 20}, "ewm_mom": {"span": 20},
        "average_true_range": {"window": 14}, "macd": {"fast": 12, "slow": 26}, "macd_signal": {"fast": 12, "slow": 26, "signal": 9},
        "rsi": {"period": 14}, "ewm_rsi": {"period": 14}, "kyle_lambda": {"window": 10}, "amihud_lambda": {"window": 10},
        "hasbrouck_lambda": {"window": 20}}
    for f in fl.F:
        want = dict(documented.get(f.name, {}))
        if f.name.startswith(("Bollinger", "EwmBollinger")):
            want = {"window": 20, "multiplier": 2}
        elif f.name.startswith("Keltner"):
            want = {"window_atr": 10, "window": 20, "multiplier": 2}
        elif f.name.startswith("Donchian"):
            want = {"window": 20}
        if want:
            args = [data[role] for _, role in f.args]
            out.append((f.name, lambda f=f, args=args, **kw: f.fn(*args, **kw), want))
    out.append(("edge_spread", lambda **kw: fl.ms.get_edge_spread(*(data[k][:20] for k in ("high", "low", "open", "close")), window=10, **kw), {"sign": False}))
    # models: one seed for all, so that equal parameters give equal paths
    for cls, d in ((BrownianMotion, {"drift": 0.0, "vol": 0.1, "cor": None}), (GeometricBrownianMotion, {"drift": 0.0, "vol": 0.1, "cor": None}),
                   (OrnsteinUhlenbeck, {"mean": 0.0, "mrr": 1.0, "vol": 0.1, "cor": None})):
        out.append((cls.__name__, lambda cls=cls, **kw: np.asarray(cls(**kw).path_sample(x0=2.0, dt=0.1, num_steps=5, num_paths=2, random_state=seed)), d))
        out.append((cls.__name__ + ".path_sample", lambda cls=cls, **kw: np.asarray(cls().path_sample(x0=1.5, random_state=seed, **kw)),
                    {"dt": 1 / 252, "num_steps": 252, "num_paths": 1, "label_start": None,
                     "label_freq": None, "columns": None, "include_x0": True}))
    out.append(("QuasiRandom", lambda **kw: np.asarray(QuasiRandom(np.tanh, **kw).path_sample(x0=2.0, dt=0.1, num_steps=5, random_state=seed)), {"f_signal_vol": 0.1}))
    X = r.standard_normal((40, 9)) + r.standard_normal((40, 1))
    out.append(("get_corr_distance_matrix", lambda **kw: np.asarray(qd.get_corr_distance_matrix(X, **kw)),
                {"corr_method": "pearson", "corr_to_dist_method": "angular", "corr_transformer": None}))
    out.append(("get_info_distance_matrix", lambda **kw: np.asarray(qd.get_info_distance_matrix(X, **kw)), {"method": "var_info"}))
    x, y = X[:, 0], X[:, 1]
    out.append(("mutual_info", lambda **kw: np.asarray(qd.mutual_info(x, y, **kw)), {"bins": None, "norm": True}))
    out.append(("var_info", lambda **kw: np.asarray(qd.var_info(x, y, **kw)), {"bins": None, "norm": True}))
    out.append(("kl_divergence_xy", lambda **kw: np.asarray(qd.kl_divergence_xy(x, y, **kw)), {"bins": None}))
    out.append(("HC", lambda **kw: qcl.HC(X=X, **kw).linkage, {"corr": None, "dist": None, "codependence_method": "pearson-correlation",
                                                            "corr_to_dist_method": "angular", "linkage_method": "ward", "optimal_ordering": True}))
    D = np.abs(r.standard_normal((28, 28)))
    D = D + D.T
    np.fill_diagonal(D, 0.0)
    Z = hierarchy.linkage(squareform(D), "average")
    out.append(("gap_statistic", lambda **kw: np.asarray(qcl.gap_statistic(D, np.arange(28) % 3, **{"random_state": seed, **kw})), {"nb": 10}))
    out.append(("optimize_n_clusters[gap]", lambda **kw: gap_counts(seed, False, **kw), {"max_clust": 20, "nb": 10}))
    out.append(("HC.get_optimal_nclusters", lambda **kw: gap_counts(seed, True, **kw), {"max_clust": 20, "metric": "gap", "nb": 10}))
    out.append(("optimize_n_clusters", lambda **kw: np.asarray(qcl.optimize_n_clusters(Z, D, metric="silhouette", **kw)), {"max_clust": 20, "nb": 10}))
    Xn = np.arange(30.0).reshape(15, 2)
    splits = lambda cv: np.concatenate([np.r_[-1, a, -2, b] for a, b in cv.split(Xn)])
    out.append(("TimeAwareKFold", lambda **kw: splits(qt.TimeAwareKFold(3, 1, 1, **kw)), {"look_forward": False, "freq": None}))
    out.append(("WalkForward", lambda **kw: splits(qt.WalkForward(1, train_window=4, test_window=3, **kw)), {"n_purge": 0, "split_type": "expanding", "freq": None}))
    cov = np.diag([1.0, 1e-20, 2.0])
    out.append(("_cov_to_cor", lambda **kw: np.concatenate([a.ravel() for a in qm._cov_to_cor(cov, **kw)]), {"cov_reg": 1e-6}))
    cor = np.corrcoef(X, rowvar=False)
    out.append(("_cor_to_eig", lambda **kw: np.concatenate([a.ravel() for a in qm._cor_to_eig(cor, **kw)]), {"sort": True, "k": None}))
    out.append(("_cor_denoise", lambda **kw: np.concatenate([np.ravel(a) for a in qm._cor_denoise(cor, 40, **kw)[:2]]), {"k": None}))
    out.append(("_cor_block_diagonal", lambda **kw: qm._cor_block_diagonal(**kw),
                {"block_sizes": [10, 10, 20, 24, 64], "block_cors": [0.5, 0.2, 0.3, 0.5, 0.3]}))
    out.append(("_random_cor", lambda **kw: np.array(qm._random_cor(**kw).shape), {"dim": 3}))
    out.append(("_random_cov", lambda **kw: np.array(qm._random_cov(**kw).shape), {"dim": 3}))
    return out


SLICES = 9


def test_defaults(case, ctx):
    """Leaving out any of the optional arguments is the same as giving the documented default."""
    import checks.catalog as cat

    entries = default_entries(case["seed"])
    for name, call, want in entries[case["slice"] :: SLICES]:
        spelled = call(**want)
        some = {k: v for i, (k, v) in enumerate(want.items()) if case["mask"] >> i & 1}
        for given in ({}, some):
            ensure(cat.freeze(call(**given)) == cat.freeze(spelled),
                   f"{name}({', '.join(given)}) with the other arguments left out differs from the documented defaults {want}")
        ctx.label(name)
    ctx.nontrivial()


VERSION = "version"


def test_version(case, ctx):
    """The version of the package is the version of the distribution."""
    import re

    import quantfinlib

    text = open(os.path.join(bootstrap.REPO, "pyproject.toml"), encoding="utf-8").read()
    m = re.search(r'^version\s*=\s*"([^"]+)"', text, re.M)
    if m is None:
        raise HarnessError("no version in pyproject.toml")
    ensure(quantfinlib.__version__ == m.group(1), f"__version__ is {quantfinlib.__version__}, the distribution's {m.group(1)}")
    from quantfinlib.util import get_project_root

    root = get_project_root()
    ensure(os.path.realpath(root) == os.path.realpath(bootstrap.REPO), f"the project root is {root}")
    sub = case["sub"]
    for arg in (sub, __import__("pathlib").Path(sub)):
        got = get_project_root(arg)
        ensure(os.path.realpath(got) == os.path.realpath(os.path.join(bootstrap.REPO, sub)), f"get_project_root({sub!r}) is {got}")
    old = os.getcwd()
    try:
        os.chdir(tempfile.gettempdir())
        ensure(os.path.realpath(get_project_root(sub)) == os.path.realpath(os.path.join(bootstrap.REPO, sub)), "the project root depends on the working directory")
    finally:
        os.chdir(old)
    ctx.nontrivial()


parts = st.lists(st.sampled_from(["quantfinlib", "tests", "a", "b c", "x.csv", "..", "."]), min_size=1, max_size=4)
SUBS = [
    Sub("order", order_case, test_order, quick=150),
    Sub("fresh", fresh_case, test_fresh, quick=8, weight=0.5),
    Sub("project", st.fixed_dictionaries({"sub": parts.map(lambda p: "/".join(p))}), test_version, quick=60),
    Sub("keywords", st.fixed_dictionaries({"feature": st.integers(0, 60), "seed": seeds()}), test_signature, quick=120),
    Sub("defaults", st.fixed_dictionaries({"slice": st.sampled_from(range(SLICES)), "mask": st.integers(0, 255), "seed": seeds()}), test_defaults, quick=60),
]
