"""C30: copies, pickles and separate instances behave like the original and are independent of it."""

import copy
import io
import os
import pickle
import warnings

import joblib
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import quantfinlib.clustering as cl
import quantfinlib.feature.indicators as ind
from checks import catalog as cat
from checks import featlib as fl
from checks.simlib import build, model_spec
from checks.splitlib import Layout, consume, layout
from pbt.core import Sub, ensure, rng, seeds, violate
from pbt.gen import make_index
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck, QuasiRandom
from quantfinlib.train_test_split import TimeAwareKFold, WalkForward

PROPERTY = "C30"
RULE = "an object with a history (fitted, split, evaluated) that is copied and whose copy or original is then changed"
ASSUMPTIONS = [
    "functions inside an object (technical indicators) are picklable themselves",
    "after a shallow copy only operations of the API are used, arrays inside are not written to",
]

WAYS = ("copy", "deepcopy", "pickle", "pickle0", "pickle2", "joblib", "twice", "deepcopy_list")


def clone(obj, way):
    if way == "copy":
        return copy.copy(obj)
    if way == "deepcopy":
        return copy.deepcopy(obj)
    if way == "twice":
        return copy.deepcopy(pickle.loads(pickle.dumps(obj)))
    if way == "deepcopy_list":
        a, b = copy.deepcopy([obj, obj])
        ensure(a is b, "a deep copy of a list with one object twice holds two objects")
        return a
    if way == "joblib":
        buf = io.BytesIO()
        joblib.dump(obj, buf)
        buf.seek(0)
        return joblib.load(buf)
    protocol = {"pickle": pickle.HIGHEST_PROTOCOL, "pickle0": 0, "pickle2": 2}[way]
    return pickle.loads(pickle.dumps(obj, protocol=protocol))


def expect(got, want, what):
    if got != want:
        violate(what)


# ------------------------------------------------------------------------------------------------ models
CLASSES = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}
PARAMETERS = {"bm": ("drift", "vol", "cor"), "gbm": ("drift", "vol", "cor"), "ou": ("mean", "mrr", "vol", "cor")}
fit_st = st.fixed_dictionaries(
    {"seed": st.integers(0, 50), "cols": st.integers(1, 3), "container": st.sampled_from(["array", "series", "dates"]),
     "dt": st.sampled_from([None, 0.1])}
)


def fit(model, f):
    model.fit(cat.frame(cat._paths(rng(f["seed"]), 30, f["cols"]), f["container"]), dt=f["dt"])


def observe_model(model):
    """Everything a user sees of a model."""
    out = [repr(model)]
    base = model.base_model if isinstance(model, QuasiRandom) else model
    for k in ("drift", "mean", "mrr", "vol", "cor"):
        if hasattr(base, k):
            v = getattr(base, k)
            out.append(None if v is None else np.asarray(v))
    steps = 6
    x0 = 2.0 if isinstance(model, QuasiRandom) else None
    out.append(model.path_sample(x0=x0, num_steps=steps, num_paths=2, random_state=3))
    if isinstance(model, QuasiRandom):
        return cat.freeze(out)
    out.append(model.path_sample(x0=1.5, dt=0.2, num_steps=4, random_state=4, label_start="2022-01-01", label_freq="D"))
    if model.fit_num_rows_ is not None:
        out.append(model.path_sample(x0="last", num_steps=4, random_state=5))
    data = 10 + np.abs(np.cumsum(rng(8).standard_normal((9, np.asarray(base.vol).size)), axis=0))
    out += [model.nll(data, 0.1), model.aic(data), model.bic(data)]
    return cat.freeze(out)


def test_model(case, ctx):
    spec = dict(case["spec"], zero_vol=False)
    model = build(spec)
    if case["quasi"]:
        model = QuasiRandom(cat.indicator, 0.3, model)
    base = model.base_model if case["quasi"] else model
    for f in case["history"]:
        fit(base, f)
    before = observe_model(model)
    twin = clone(model, case["way"])
    ensure(type(twin) is type(model), f"{case['way']}: {type(twin).__name__} instead of {type(model).__name__}")
    what = f"{type(model).__name__} ({case['way']})"
    expect(observe_model(twin), before, f"{what}: the copy behaves differently")
    ctx.label(case["way"], spec["model"], "quasi" if case["quasi"] else "plain")
    # change one, look at the other
    changed, other = (twin, model) if case["change_copy"] else (model, twin)
    if case["quasi"]:
        if case["way"] == "copy":
            return
        changed.f_signal_vol = 0.9
    for f in case["then"]:
        fit(changed.base_model if case["quasi"] else changed, f)
    expect(observe_model(other), before, f"{what}: changing {'the copy' if case['change_copy'] else 'the original'} changed the other one")
    if case["way"] != "copy" and not case["quasi"]:
        # independent to the last array
        for k in PARAMETERS[spec["model"]]:
            v = getattr(changed, k, None)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = v * 0.5
        for k in ("fit_x0_", "fit_xn_"):
            v = getattr(changed, k, None)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 3.0
        expect(observe_model(other), before, f"{what}: the copies share memory")
    ctx.nontrivial(bool(case["history"]) and bool(case["then"]))


model_case = st.fixed_dictionaries(
    {
        "spec": model_spec(3),
        "quasi": st.sampled_from([False, False, True]),
        "history": st.lists(fit_st, max_size=2),
        "way": st.sampled_from(WAYS),
        "then": st.lists(fit_st, max_size=2),
        "change_copy": st.booleans(),
    }
)


# ------------------------------------------------------------------------------------------------ separate instances
def make_default(kind):
    if kind == "quasi":
        return QuasiRandom(cat.indicator)
    return CLASSES[kind]()


def test_instances(case, ctx):
    """Instances made with defaults or from the same arguments do not influence each other, nor later instances."""
    want = {k: observe_model(make_default(k)) for k in ("bm", "gbm", "ou", "quasi")}
    kind = case["kind"]
    first, second = make_default(kind), make_default(kind)
    for f in case["fits"]:
        fit(first.base_model if kind == "quasi" else first, f)
        ctx.nontrivial()
    target = first.base_model if kind == "quasi" else first
    for k in ("drift", "vol", "mean", "mrr"):
        v = getattr(target, k, None)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 0.77
    expect(observe_model(second), want[kind], f"{kind}: fitting or changing one instance changed another one")
    for k in want:
        expect(observe_model(make_default(k)), want[k], f"fitting a {kind} model changed the defaults of new {k} models")
    # the same argument objects in two models
    spec = dict(case["spec"], form="array", zero_vol=False)
    probe = build(spec)
    args = {k: np.array(getattr(probe, k), dtype=float) for k in PARAMETERS[spec["model"]] if getattr(probe, k) is not None}
    kept = {k: v.copy() for k, v in args.items()}
    cls = CLASSES[spec["model"]]
    a, b = cls(**args), cls(**args)
    seen = observe_model(b)
    for f in case["fits"]:
        fit(a, f)
    expect(observe_model(b), seen, f"{spec['model']}: fitting one model changed another one built from the same arrays")
    for k in args:
        ensure(np.array_equal(args[k], kept[k]), f"{spec['model']}: fitting changed the array that was passed as {k}")
    ctx.label(kind)


instances_case = st.fixed_dictionaries(
    {"kind": st.sampled_from(["bm", "gbm", "ou", "quasi"]), "fits": st.lists(fit_st, max_size=2), "spec": model_spec(3)}
)


# ------------------------------------------------------------------------------------------------ splitters
def make_splitter(c, freq):
    if c["kind"] == "kfold":
        return TimeAwareKFold(n_folds=c["folds"], n_embargo=c["embargo"], n_purge=c["purge"], look_forward=c["flag"], freq=freq)
    return WalkForward(n_embargo=c["embargo"], train_window=c["folds"] + 1, test_window=c["folds"],
                       split_type="rolling" if c["flag"] else "expanding", freq=freq)


def observe_splitter(s, lay):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = s.get_n_splits()
        got, error = consume(s.split(lay.X, lay.y, lay.groups))
        return cat.freeze([repr(type(s)), before, got, None if error is None else type(error).__name__, s.get_n_splits()])


def count(s):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return s.get_n_splits()


def test_splitter(case, ctx):
    lay = Layout(case["layout"])
    other = Layout(dict(case["other"], kind=case["layout"]["kind"], freq=case["layout"]["freq"]))
    s = make_splitter(case, lay.freq)
    if case["used"]:
        consume(s.split(other.X, other.y, other.groups))
    gen = None
    if case["running"]:
        # copies may be taken while a pass over the splits is under way
        gen = s.split(lay.X, lay.y, lay.groups)
        try:
            next(gen)
        except (StopIteration, ValueError):
            gen = None
    n = count(s)
    twin = clone(s, case["way"])
    what = f"{type(s).__name__} ({case['way']})"
    ensure(type(twin) is type(s) and count(twin) == n, f"{what}: reports {count(twin)} splits, the original {n}")
    # using the copy on other data leaves the original alone
    consume(twin.split(other.X, other.y, other.groups))
    ensure(count(s) == n, f"{what}: using the copy changed the original's number of splits from {n} to {count(s)}")
    if gen is not None:
        consume(gen)
    new = make_splitter(case, lay.freq)
    if isinstance(new, WalkForward):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            ensure(new.get_n_splits() == 0 and len(caught) == 1, "a new WalkForward knows its splits without any data, after others were used")
    fresh = observe_splitter(new, lay)
    a, b = observe_splitter(s, lay), observe_splitter(clone(twin, case["way"]), lay)
    finished = a[4] == ("NoneType", "None")
    end = 6 if finished else 5  # a pass that ends with an error does not report the number of splits
    expect(b[3:end], a[3:end], f"{what}: the copy splits differently")
    expect(a[3:end], fresh[3:end], f"{what}: differs from a new splitter")
    ctx.nontrivial(case["used"] and finished)
    ctx.label(case["kind"], case["way"])


splitter_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["kfold", "walk_forward"]),
        "layout": layout(25),
        "other": layout(20),
        "folds": st.integers(2, 4),
        "embargo": st.integers(0, 2),
        "purge": st.integers(0, 2),
        "flag": st.booleans(),
        "used": st.booleans(),
        "running": st.booleans(),
        "way": st.sampled_from(WAYS),
    }
)


# ------------------------------------------------------------------------------------------------ bands
BANDS = {"Bollinger": (ind.BollingerBands, ("price",)), "EwmBollinger": (ind.EwmBollingerBands, ("price",)),
         "Donchian": (ind.DonchianBands, ("price",)), "Keltner": (ind.KeltnerBands, ("high", "low", "close"))}


def observe_band(b, order):
    """The methods in some order: none of them changes what the others give."""
    got = {m: cat.freeze(getattr(b, m)()) for m in order}
    return tuple(got[m] for m in fl.BAND_METHODS)


def test_band(case, ctx):
    cls, roles = BANDS[case["band"]]
    n = case["n"]
    data = fl.make_data({"n": n, "seed": case["seed"], "kind": case["kind"]})
    args = [np.array(data[k], dtype=float) for k in roles]
    if case["index"] is not None:
        index = make_index(case["index"], n, 3)
        args = [pd.Series(a, index=index, name="p") for a in args]
    band = cls(*args, window=case["window"])
    methods = list(fl.BAND_METHODS)
    orders = [[methods[i] for i in rng(case["seed"] + k).permutation(5)] for k in range(3)]
    first = observe_band(band, orders[0])
    twin = clone(band, case["way"])
    what = f"{cls.__name__} ({case['way']}) of {'arrays' if case['index'] is None else 'Series'}"
    expect(observe_band(twin, orders[1]), first, f"{what}: the copy gives other bands")
    expect(observe_band(band, orders[2]), first, f"{what}: the bands depend on the order of evaluation")
    if case["way"] != "copy":
        for k in ("ts", "rolling_mean", "rolling_std"):
            v = getattr(twin, k, None)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 1.0
            elif isinstance(v, pd.Series):
                v.iloc[:] = 1.0
        expect(observe_band(band, orders[0]), first, f"{what}: the copies share memory")
    ctx.nontrivial(n > 3)
    ctx.label(case["band"], case["way"], "array" if case["index"] is None else "series")


band_case = st.fixed_dictionaries(
    {
        "band": st.sampled_from(sorted(BANDS)),
        "n": st.integers(2, 30),
        "seed": seeds(),
        "kind": st.sampled_from(["walk", "trend", "ties"]),
        "index": st.sampled_from([None, None, "range", "dates", "strings"]),
        "window": st.integers(2, 6),
        "way": st.sampled_from(WAYS),
    }
)


# ------------------------------------------------------------------------------------------------ hierarchical clustering
def make_hc(case):
    r = rng(case["seed"])
    if case["from"] == "dist":
        return cl.HC(dist=cat._dist(r, case["container"]), linkage_method=case["link"])
    if case["from"] == "corr":
        return cl.HC(corr=cat.frame(cat.random_cor(6, case["seed"]), case["container"]), linkage_method=case["link"])
    return cl.HC(X=cat.frame(cat._table(r, 40, 6), case["container"]), codependence_method=case["from"], linkage_method=case["link"])


def observe_hc(h, order):
    out = {}
    for step in order:
        if step == "linkage":
            out[step] = cat.freeze(h.linkage)
        elif step == "dist":
            out[step] = cat.freeze(h.dist)
        elif step in ("gap", "silhouette"):
            out[step] = cat.freeze(h.get_optimal_nclusters(4, step))
        else:
            out[step] = cat.freeze(h.get_clusters(int(step)))
    return tuple(sorted(out.items()))


STEPS = ("linkage", "dist", "gap", "silhouette", "2", "3", "1")


def test_hc(case, ctx):
    want = observe_hc(make_hc(case), STEPS)
    h = make_hc(case)
    warm = [STEPS[i] for i in case["warm"]]
    observe_hc(h, warm)
    twin = clone(h, case["way"])
    what = f"HC({case['from']}, {case['link']}) ({case['way']})"
    r = rng(case["seed"] + 1)
    expect(observe_hc(twin, [STEPS[i] for i in r.permutation(7)]), want, f"{what}: the copy clusters differently")
    expect(observe_hc(h, [STEPS[i] for i in r.permutation(7)]), want, f"{what}: the results depend on the order of the calls")
    if case["way"] != "copy":
        twin.linkage[...] = 0.0
        d = twin.dist
        (d.to_numpy() if isinstance(d, pd.DataFrame) else d)[...] = 0.5
        expect(observe_hc(h, STEPS), want, f"{what}: the copies share memory")
    ctx.nontrivial(bool(warm))
    ctx.label(case["from"], case["way"])


hc_case = st.fixed_dictionaries(
    {
        "from": st.sampled_from(["dist", "corr", "pearson-correlation", "spearman-correlation", "var_info"]),
        "link": st.sampled_from(["single", "complete", "average", "weighted", "ward"]),
        "container": st.sampled_from(["array", "series"]),
        "seed": seeds(),
        "warm": st.lists(st.integers(0, 6), max_size=3),
        "way": st.sampled_from(WAYS),
    }
)

SUBS = [
    Sub("model", model_case, test_model, quick=500),
    Sub("instances", instances_case, test_instances, quick=150),
    Sub("splitter", splitter_case, test_splitter, quick=500),
    Sub("band", band_case, test_band, quick=400),
    Sub("hc", hc_case, test_hc, quick=250),
]
