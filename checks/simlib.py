"""Shared pieces of the simulation checks: generated model configurations and the reference recursion."""

import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import rng, seeds
from pbt.gen import random_cor
from quantfinlib.sim import BrownianMotion, GeometricBrownianMotion, OrnsteinUhlenbeck

MODELS = {"bm": BrownianMotion, "gbm": GeometricBrownianMotion, "ou": OrnsteinUhlenbeck}


def model_spec(max_variates=4, wide=False):
    return st.fixed_dictionaries(
        {
            "model": st.sampled_from(["bm", "gbm", "ou"]),
            "variates": st.one_of([st.integers(1, max_variates)] * 4 + [st.sampled_from([5, 7, 8, 11])] * wide),
            "cor": st.booleans(),
            "pseed": seeds(),
            "form": st.sampled_from(["list", "array", "row", "int"] + ["shared"] * wide),
            **({"slow": st.sampled_from([False] * 5 + [True])} if wide else {}),
            "zero_vol": st.sampled_from([False, False, False, False, True]),
            "scales": st.sampled_from([False, False, False, True]),
        }
    )


def params(spec):
    """The parameters of a model as 1d arrays, plus the correlation matrix (or None)."""
    n = spec["variates"]
    r = rng(spec["pseed"])
    p = {}
    loc = r.normal(0, 1, n) * r.choice([0.0, 0.1, 3.0])
    vol = np.exp(r.normal(-1.0, 1.0, n))
    vol = np.clip(vol, 0.01, 2.0)
    if spec.get("scales") and spec["form"] != "int":
        # variates on very different scales, e.g. an interest rate and the level of an index
        f = 10.0 ** r.uniform(-6, 0 if spec["model"] == "gbm" else 4, n)
        vol = vol * f
        loc = loc * f
    if spec.get("zero_vol"):
        vol[r.integers(0, n)] = 0.0
    if spec["form"] == "shared":
        vol = np.full(n, vol[0])
    if spec["form"] == "int":
        loc, vol = np.round(loc), np.round(vol) + 1
    if spec["model"] == "ou":
        p["mean"] = loc * 3
        p["mrr"] = np.clip(np.exp(r.normal(0.5, 1.5, n)), 1e-2, 60)
        if spec.get("slow"):
            p["mrr"] = p["mrr"] * 10.0 ** r.uniform(-6, -2)
        if spec["form"] == "shared":
            p["mrr"] = np.full(n, p["mrr"][0])
        if spec["form"] == "int":
            p["mrr"] = np.round(p["mrr"]) + 1
    else:
        p["drift"] = loc
    p["vol"] = vol
    cor = random_cor(n, spec["pseed"] + 7, r.choice([0.3, 1.0, 3.0])) if spec["cor"] else None
    return p, cor


def build(spec):
    p, cor = params(spec)
    form = spec["form"]
    n = spec["variates"]
    args = {}
    for k, v in p.items():
        if form == "int":
            args[k] = int(v[0]) if n == 1 else [int(e) for e in v]
        elif form == "shared" and k in ("vol", "mrr"):  # one value for all variates
            args[k] = float(v[0])
        elif form in ("array", "shared"):
            args[k] = v.copy()
        elif form == "row":
            args[k] = v.reshape(1, -1).copy()
        else:
            args[k] = float(v[0]) if n == 1 else [float(e) for e in v]
    if cor is not None:
        args["cor"] = cor.tolist() if form == "list" else cor.copy()
    return MODELS[spec["model"]](**args)


def reference_noise(variates, steps, paths, seed):
    """The standard normal shocks for this seed and layout, recovered from the simplest model."""
    m = BrownianMotion(drift=[0.0] * variates, vol=[1.0] * variates)
    w = m.path_sample(x0=0.0, dt=1.0, num_steps=steps, num_paths=paths, random_state=seed)
    return np.diff(np.asarray(w), axis=0)


def reference_path(kind, p, cor, noise, x0, dt, variates, paths):
    """The exact discrete solution of the SDE, driven by the given independent shocks."""
    steps = noise.shape[0]
    z = noise.reshape(steps, paths, variates)
    if cor is not None:
        z = z @ np.linalg.cholesky(cor).T
    out = np.zeros((steps + 1, paths, variates))
    out[0] = x0
    v = p["vol"]
    for t in range(steps):
        prev = out[t]
        if kind == "bm":
            out[t + 1] = prev + p["drift"] * dt + v * math.sqrt(dt) * z[t]
        elif kind == "gbm":
            out[t + 1] = prev * np.exp((p["drift"] - v * v / 2) * dt + v * math.sqrt(dt) * z[t])
        else:
            a = np.exp(-p["mrr"] * dt)
            s = v * np.sqrt(-np.expm1(-2 * p["mrr"] * dt) / (2 * p["mrr"]))
            out[t + 1] = p["mean"] + (prev - p["mean"]) * a + s * z[t]
    return out.reshape(steps + 1, paths * variates)
