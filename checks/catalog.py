"""A catalogue of calls that covers the public API: data, objects, and results that can be compared bit by bit."""

import dataclasses
import functools
import hashlib
import pickle
import warnings
from typing import Callable, Optional

import numpy as np
import pandas as pd

import quantfinlib.clustering as cl
import quantfinlib.datasets as qdata
import quantfinlib.distance as qd
import quantfinlib.feature.indicators as ind
from checks import featlib as fl
from pbt.core import rng
from pbt.gen import random_cor
from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
from quantfinlib.distance.distance_matrix import corr_to_dist
from quantfinlib.feature import chu_stinchcombe_white_cusum_test
from quantfinlib.math import cov as qc
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward

KINDS = ("walk", "noise", "trend", "jumps", "tiny", "big")


@dataclasses.dataclass
class Call:
    name: str
    make: Callable  # (random generator, size, container) -> inputs
    use: Callable  # (object, inputs) -> result
    prepare: Optional[Callable] = None  # inputs -> object that several uses may share; None: nothing to share
    area: str = ""
    containers: tuple = ("array", "series")


CALLS = []


def add(name, area, make, use, prepare=None, containers=("array",)):
    CALLS.append(Call(name, make, use, prepare, area, containers))


def plain(fn):
    return lambda _obj, inputs: fn(*inputs)


def wrap(x, container, r=None):
    """1d data in its container."""
    if container == "array":
        return x
    if container == "dates":
        return pd.Series(x, index=pd.date_range("2020-01-01", periods=len(x), freq="B", name="when"), name="p")
    return pd.Series(x, name="p")


def frame(x, container):
    """2d data in its container."""
    if container == "array":
        return x
    index = pd.date_range("2020-01-01", periods=len(x), freq="B", name="when") if container == "dates" else None
    return pd.DataFrame(x, index=index, columns=[f"c{i}" for i in range(x.shape[1])])


# ------------------------------------------------------------------------------------------------ features
def _params(feature, r, n):
    p = {}
    for k, (lo, default) in feature.params.items():
        if k == "multiplier":
            p[k] = float(r.choice([1, 2, 2.5]))
        else:
            p[k] = int(r.integers(lo, max(lo + 1, min(n // 2, 12))))
    return p


def _feature(feature):
    def make(r, n, container):
        spec = {"n": n, "seed": int(r.integers(0, 2**31)), "kind": str(r.choice(KINDS))}
        data = fl.make_data(spec)
        args = [wrap(np.array(data[role], dtype=float), container) for _, role in feature.args]
        return args + [_params(feature, r, n)]

    def use(_obj, inputs):
        with fl.inline_workers():
            return feature.fn(*inputs[:-1], **inputs[-1])

    add("feature." + feature.name, "feature", make, use, containers=("array", "series", "dates"))


for _feat in fl.F:
    _feature(_feat)


def _band_object(cls, roles):
    def make(r, n, container):
        data = fl.make_data({"n": n, "seed": int(r.integers(0, 2**31)), "kind": str(r.choice(KINDS))})
        return [wrap(np.array(data[k], dtype=float), container) for k in roles] + [int(r.integers(2, 8))]

    def prepare(inputs):
        return cls(*inputs[:-1], window=inputs[-1])

    def use(band, _inputs):
        return [getattr(band, m)() for m in fl.BAND_METHODS]

    add("band." + cls.__name__, "feature", make, use, prepare, ("array", "series", "dates"))


_band_object(ind.BollingerBands, ("price",))
_band_object(ind.EwmBollingerBands, ("price",))
_band_object(ind.DonchianBands, ("price",))
_band_object(ind.KeltnerBands, ("high", "low", "close"))


def _walk(r, n, container="array"):
    return wrap(50 * np.exp(np.cumsum(0.02 * r.standard_normal(n))), container)


add("cusum", "feature", lambda r, n, c: [_walk(r, n)], plain(chu_stinchcombe_white_cusum_test))


# ------------------------------------------------------------------------------------------------ simulation
def indicator(x):
    """A technical indicator that works on prices of any sign."""
    return np.tanh(np.diff(x, prepend=x[0])) + 0.01 * np.arange(len(x))


def _paths(r, n, cols):
    """A positive, mean reverting path: valid data for every model."""
    L = np.linalg.cholesky(random_cor(cols, int(r.integers(0, 2**31))))
    y = np.zeros((n, cols))
    for t in range(1, n):
        y[t] = 0.7 * y[t - 1] + 0.2 * (L @ r.standard_normal(cols))
    return 20 * np.exp(y)


MODELS = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}


def model_results(model, data, seed, dt=0.02):
    out = [np.asarray(getattr(model, k)) for k in ("drift", "mean", "mrr", "vol") if hasattr(model, k)]
    out += [model.nll(data, dt), model.aic(data, dt), model.bic(data, dt)]
    out.append(model.path_sample(num_steps=6, num_paths=2, random_state=seed))
    out.append(model.path_sample(x0="last", dt=dt, num_steps=4, random_state=seed + 1, label_start="2021-01-01", label_freq="D"))
    return out


def _model(name, cls):
    def make(r, n, container):
        return [frame(_paths(r, n, int(r.integers(1, 4))), container), int(r.integers(0, 2**31)), float(r.choice([0.02, 1.0]))]

    def use(model, inputs):
        return model_results(model, inputs[0], inputs[1], inputs[2])

    add(f"sim.{name}.fitted", "sim", make, use, lambda i: cls().fit(i[0], i[2]), ("array", "series", "dates"))

    def make2(r, n, _container):
        k = int(r.integers(1, 4))
        p = [np.exp(r.normal(-1, 0.5, k)) for _ in range(3)]
        return p + [random_cor(k, int(r.integers(0, 2**31))) if k > 1 else None, int(r.integers(0, 2**31)), np.abs(r.normal(2, 0.3, k))]

    def prepare2(i):
        if name == "ou":
            return cls(mean=i[0], mrr=i[1], vol=i[2], cor=i[3])
        return cls(drift=i[0], vol=i[2], cor=i[3])

    add(f"sim.{name}.given", "sim", make2,
        lambda m, i: m.path_sample(x0=i[5], dt=0.1, num_steps=7, num_paths=3, random_state=i[4]), prepare2)


for _name, _cls in MODELS.items():
    _model(_name, _cls)

add("sim.quasi", "sim", lambda r, n, c: [float(r.uniform(0.1, 1)), np.exp(r.normal(-1, 0.5, 2)), int(r.integers(0, 2**31))],
    lambda q, i: q.path_sample(x0=2.0, dt=0.1, num_steps=9, num_paths=2, random_state=i[2]),
    lambda i: QuasiRandom(indicator, i[0], BrownianMotion(drift=[0.0, 0.1], vol=i[1])))


# ------------------------------------------------------------------------------------------------ splitters
def _groups(r, n, container):
    step = r.integers(0, 3, n)
    step[::2] += 1  # at most two samples per group: no fold is left without a group
    g = np.cumsum(step) + int(r.integers(0, 50))
    if container == "dates":
        return pd.DatetimeIndex(pd.Timestamp("2011-01-01") + pd.to_timedelta(g, unit="D"))
    return pd.Series(g) if container == "series" else g


def _split_make(r, n, container):
    return [r.standard_normal((n, 2)), _groups(r, n, container), int(r.integers(2, 4)), int(r.integers(0, 2)), bool(r.integers(0, 2)),
            "D" if container == "dates" else None]


add("split.kfold", "split", _split_make, lambda s, i: list(s.split(i[0], groups=i[1])) + [s.get_n_splits()],
    lambda i: TimeAwareKFold(n_folds=i[2], n_embargo=i[3], n_purge=1, look_forward=i[4], freq=i[5]), ("array", "series", "dates"))
add("split.walk_forward", "split", _split_make, lambda s, i: list(s.split(i[0], groups=i[1])) + [s.get_n_splits()],
    lambda i: WalkForward(n_embargo=i[3], train_window=4 + i[2], test_window=i[2], split_type="rolling" if i[4] else "expanding", freq=i[5]),
    ("array", "series", "dates"))


# ------------------------------------------------------------------------------------------------ distances
def _table(r, n, k=None):
    k = k or int(r.integers(2, 6))
    return r.standard_normal((n, 1)) * r.uniform(0, 2) + r.standard_normal((n, k))


def _pair(r, n, container):
    t = _table(r, n, 2)
    return [wrap(t[:, 0].copy(), container), wrap(t[:, 1].copy(), container)]


for _n in ("pair_angular_distance", "pair_abs_angular_distance", "pair_squared_angular_distance"):
    add("distance." + _n, "distance", _pair, plain(getattr(qd, _n)))
for _n in ("corr_to_angular_dist", "corr_to_abs_angular_dist", "corr_to_squared_angular_dist"):
    add("distance." + _n, "distance",
        lambda r, n, c: [frame(random_cor(int(r.integers(2, 7)), int(r.integers(0, 2**31))), c)], plain(getattr(qd, _n)))
for _n in ("mutual_info", "var_info"):
    for _norm in (True, False):
        add(f"distance.{_n}.{_norm}", "distance", lambda r, n, c: _pair(r, n, c) + [int(r.integers(2, 9))],
            lambda _o, i, f=getattr(qd, _n), m=_norm: f(i[0], i[1], bins=i[2], norm=m), containers=("array", "series"))
    add(f"distance.{_n}.auto", "distance", _pair, plain(getattr(qd, _n)), containers=("array", "series"))
    add(f"distance.matrix.{_n}", "distance", lambda r, n, c: [frame(_table(r, n), c)],
        lambda _o, i, m=_n: qd.get_info_distance_matrix(i[0], m), containers=("array", "series"))
add("distance.kl", "distance", lambda r, n, c: _pair(r, n, c) + [int(r.integers(2, 9))], plain(qd.kl_divergence_xy),
    containers=("array", "series"))
add("distance.entropies", "distance", lambda r, n, c: _pair(r, n, c) + [int(r.integers(2, 9))], plain(qd.compute_entropies),
    containers=("array", "series"))
for _m in ("pearson", "spearman"):
    for _d in ("angular", "abs_angular", "squared_angular"):
        add(f"distance.matrix.{_m}.{_d}", "distance", lambda r, n, c: [frame(_table(r, n), c)],
            lambda _o, i, m=_m, d=_d: qd.get_corr_distance_matrix(i[0], m, d), containers=("array", "series"))
for _d in ("angular", "abs_angular", "squared_angular"):
    add(f"distance.corr_to_dist.{_d}", "distance",
        lambda r, n, c: [frame(random_cor(int(r.integers(2, 7)), int(r.integers(0, 2**31))), c)],
        lambda _o, i, d=_d: corr_to_dist(i[0], d), containers=("array", "series"))


def _two_pd(r, n, c):
    k = int(r.integers(1, 6))
    return [random_cor(k, int(r.integers(0, 2**31))) * r.uniform(0.5, 2), random_cor(k, int(r.integers(0, 2**31)))]


add("distance.log_det", "distance", _two_pd, plain(qd.log_det_divergence))
add("distance.von_neuman", "distance", _two_pd, plain(qd.von_neuman_divergence))


# ------------------------------------------------------------------------------------------------ clustering
def _dist(r, container, lo=5, hi=12):
    k = int(r.integers(lo, hi))
    p = r.standard_normal((k, 3)) + 3 * r.standard_normal((3, 3))[r.integers(0, 3, k)]
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    d = (d + d.T) / 2
    np.fill_diagonal(d, 0.0)
    return frame(d, container)


def hc_results(h, ks=(2, 3, 4)):
    return [h.dist.copy(), h.linkage] + [h.get_clusters(k) for k in ks] + [h.get_optimal_nclusters(5, m) for m in ("gap", "silhouette")]


LINKS = ("single", "complete", "average", "weighted", "centroid", "median", "ward")
add("cluster.hc.dist", "clustering", lambda r, n, c: [_dist(r, c), str(r.choice(LINKS))], lambda h, i: hc_results(h),
    lambda i: cl.HC(dist=i[0], linkage_method=i[1]), ("array", "series"))
add("cluster.hc.corr", "clustering",
    lambda r, n, c: [frame(random_cor(int(r.integers(5, 9)), int(r.integers(0, 2**31))), c), str(r.choice(LINKS[:4] + LINKS[6:]))],
    lambda h, i: hc_results(h), lambda i: cl.HC(corr=i[0], linkage_method=i[1]), ("array", "series"))
for _m in ("pearson-correlation", "spearman-correlation", "var_info"):
    add(f"cluster.hc.{_m}", "clustering", lambda r, n, c: [frame(_table(r, max(n, 30), 6), c)], lambda h, i: hc_results(h),
        lambda i, m=_m: cl.HC(X=i[0], codependence_method=m), ("array", "series"))


def _labelled(r, n, c):
    d = _dist(r, c)
    labels = np.arange(len(d)) % int(r.integers(2, 4))
    return [d, wrap(r.permutation(labels), c)]


add("cluster.gap", "clustering", lambda r, n, c: _labelled(r, n, c) + [int(r.integers(2, 12)), int(r.integers(0, 1000))],
    lambda _o, i: cl.gap_statistic(i[0], i[1], nb=i[2], random_state=i[3]), containers=("array", "series"))
add("cluster.gap.default", "clustering", _labelled, lambda _o, i: cl.gap_statistic(i[0], i[1]), containers=("array", "series"))
add("cluster.silhouette", "clustering", _labelled, lambda _o, i: cl.silhouette_tstat(i[0], i[1]), containers=("array", "series"))


# ------------------------------------------------------------------------------------------------ covariances
def _cov(r, k=None):
    k = k or int(r.integers(2, 8))
    s = np.exp(r.normal(0, 1, k))
    return random_cor(k, int(r.integers(0, 2**31))) * np.outer(s, s)


add("cov.to_cor", "cov", lambda r, n, c: [_cov(r)], plain(qc._cov_to_cor))
add("cov.from_cor", "cov", lambda r, n, c: [random_cor(4, int(r.integers(0, 2**31))), np.exp(r.normal(0, 1, 4))], plain(qc._cor_to_cov))
add("cov.eig", "cov", lambda r, n, c: [random_cor(5, int(r.integers(0, 2**31))), bool(r.integers(0, 2)), int(r.integers(1, 5))],
    plain(qc._cor_to_eig))
add("cov.eig_all", "cov", lambda r, n, c: [random_cor(int(r.integers(2, 8)), int(r.integers(0, 2**31)))], plain(qc._cor_to_eig))


def _eig_inputs(r, n, c):
    w, u = np.linalg.eigh(random_cor(5, int(r.integers(0, 2**31))))
    return [w[::-1].copy(), u[:, ::-1].copy()]


add("cov.eig_to_cor", "cov", _eig_inputs, plain(qc._eig_to_cor))
add("cov.complete", "cov", lambda r, n, c: [a[..., :3].copy() for a in _eig_inputs(r, n, c)], plain(qc._eig_complete))
add("cov.mp_pdf", "cov", lambda r, n, c: [float(r.uniform(0.3, 2)), 50, int(r.integers(2, 49)), np.linspace(0.01, 5, n)],
    plain(qc._marchenko_pastur_pdf))
add("cov.mp_support", "cov", lambda r, n, c: [float(r.uniform(0.3, 2)), 50, int(r.integers(2, 49))], plain(qc._marcenko_pastur_support))


def _sample_cor(r, k, T):
    x = r.standard_normal((T, k)) + r.standard_normal((T, 1)) * r.uniform(0, 1, k)
    c = np.corrcoef(x, rowvar=False)
    c = (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


add("cov.denoise_values", "cov", lambda r, n, c: [np.sort(np.linalg.eigvalsh(_sample_cor(r, 6, 40)))[::-1].copy(), 40],
    plain(qc._eigen_values_denoise))
add("cov.denoise_values_k", "cov",
    lambda r, n, c: [np.sort(np.linalg.eigvalsh(_sample_cor(r, 6, 40)))[::-1].copy(), 40, int(r.integers(1, 5))],
    plain(qc._eigen_values_denoise))
add("cov.cor_denoise", "cov", lambda r, n, c: [_sample_cor(r, 6, 40), 40], plain(qc._cor_denoise))
add("cov.cor_denoise_k", "cov", lambda r, n, c: [_sample_cor(r, 6, 40), 40, int(r.integers(1, 5))], plain(qc._cor_denoise))
add("cov.denoise", "cov", lambda r, n, c: [_sample_cor(r, 6, 40) * 0.04, 40], plain(qc._cov_denoise))
add("cov.blocks", "cov", lambda r, n, c: [[2, int(r.integers(1, 4))], [float(r.uniform(0, 0.9)), 0.2]], plain(qc._cor_block_diagonal))
add("cov.blocks.default", "cov", lambda r, n, c: [], plain(qc._cor_block_diagonal))

# ------------------------------------------------------------------------------------------------ calendars and data sets
FREQS = ("D", "B", "W-WED", "ME", "MS", "QE", "YE")
add("calendar.freq", "calendar", lambda r, n, c: [pd.date_range("2001-02-03", periods=n, freq=str(r.choice(FREQS)))],
    plain(time_series_freq))
add("calendar.freq_gaps", "calendar",
    lambda r, n, c: [pd.date_range("2001-02-03", periods=n, freq="B").delete([int(r.integers(3, n - 3))])], plain(time_series_freq))
add("calendar.duration", "calendar", lambda r, n, c: [str(r.choice(FREQS))], plain(time_series_freq_to_duration))
for _n in ("load_vix", "load_treasury_rates", "load_equity_indices"):
    add("data." + _n, "data", lambda r, n, c: [], plain(getattr(qdata, _n)))

BY_NAME = {c.name: c for c in CALLS}
NAMES = sorted(BY_NAME)
CHEAP = [n for n in NAMES if not n.startswith("data.")]


def inputs_of(spec):
    """Fresh inputs for a call: spec has name, seed, n and container."""
    call = BY_NAME[spec["name"]]
    container = call.containers[spec["container"] % len(call.containers)]
    return call.make(rng([spec["seed"], len(spec["name"])]), spec["n"], container)


def run(spec, inputs=None, obj=None):
    """The result of the call, or the exception (as a value)."""
    call = BY_NAME[spec["name"]]
    if inputs is None:
        inputs = inputs_of(spec)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return execute(call, inputs, obj)
    except Exception as e:
        return e


def execute(call, inputs, obj=None):
    if obj is None and call.prepare is not None:
        obj = call.prepare(inputs)
    return call.use(obj, inputs)


# ------------------------------------------------------------------------------------------------ comparing results
def freeze(x):
    """Nested tuples of plain values that are equal exactly when the results are the same."""
    if isinstance(x, pd.DataFrame):
        return ("frame", freeze(x.index), freeze(x.columns), freeze([x.iloc[:, i].to_numpy() for i in range(x.shape[1])]))
    if isinstance(x, pd.Series):
        return ("series", freeze(x.index), repr(x.name), freeze(x.to_numpy()))
    if isinstance(x, pd.Index):
        return ("index", type(x).__name__, repr(x.name), repr(getattr(x, "freq", None)), freeze(np.asarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(map(repr, x.ravel())))
        if x.dtype.kind == "f":
            x = np.where(np.isnan(x), np.nan, x + 0.0)  # one zero, one NaN
        return ("array", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(freeze(e) for e in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), freeze(x[k])) for k in x)
    if isinstance(x, BaseException):
        return ("raised", type(x).__name__, str(x))
    if isinstance(x, (float, np.floating)):
        return (type(x).__name__, "nan" if x != x else (float(x) + 0.0).hex())
    return (type(x).__name__, repr(x))


def digest(frozen):
    return hashlib.blake2b(pickle.dumps(frozen, protocol=4), digest_size=16).hexdigest()


def numbers(x):
    """All numbers of a result, in order, for comparisons up to rounding."""
    if isinstance(x, BaseException):
        raise x
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return [np.asarray(x, dtype=float)]
    if isinstance(x, np.ndarray):
        return [x.astype(float)]
    if isinstance(x, (tuple, list)):
        return [a for e in x for a in numbers(e)]
    if isinstance(x, dict):
        return [a for e in x.values() for a in numbers(e)]
    if isinstance(x, (bool, int, float, np.number)):
        return [np.asarray(float(x))]
    return []


def describe(x):
    """A short text for messages."""
    return functools.reduce(lambda s, c: s + c, repr(x).split("\n"))[:160]
