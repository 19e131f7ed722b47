"""C32: the array and pandas types for pydantic accept exactly the data they describe."""

import json
import os
import subprocess
import sys
import tempfile
from typing import Annotated, Any, Optional, Union

import numpy as np
import pandas as pd
import pydantic
from hypothesis import strategies as st
from pydantic import BaseModel, TypeAdapter

from pbt.core import Sub, ensure, rng, seeds, violate
from pbt.gen import snapshot, unchanged
from quantfinlib.train_test_split import _dtypes as splits
from quantfinlib.util import _custom_types as ct
from quantfinlib.util import to_numpy

PROPERTY = "C32"
RULE = "the type restricts shape, dtype or columns, and the data differ from it in at most one respect"
ASSUMPTIONS = [
    "rejected data raise TypeError or ValueError (pydantic's ValidationError is one)",
    "data of a type must be safely castable to it (numpy's rule) for arrays and have exactly that type for pandas objects",
    "validation of Python objects; JSON documents are only written, not read",
]

DTYPES = ("float64", "float32", "int64", "int32", "int8", "uint8", "uint64", "bool", "complex128", "datetime64[ns]", "U3", "object")
# numpy's safe casts between the numeric ones, written out: from -> to
SAFE = {
    "bool": {"bool", "uint8", "uint64", "int8", "int32", "int64", "float32", "float64", "complex128"},
    "uint8": {"uint8", "uint64", "int32", "int64", "float32", "float64", "complex128"},
    "int8": {"int8", "int32", "int64", "float32", "float64", "complex128"},
    "int32": {"int32", "int64", "float64", "complex128"},
    "int64": {"int64", "float64", "complex128"},
    "uint64": {"uint64", "float64", "complex128"},
    "float32": {"float32", "float64", "complex128"},
    "float64": {"float64", "complex128"},
    "complex128": {"complex128"},
    "datetime64[ns]": {"datetime64[ns]"},
}


def castable(have, want):
    if want == "object":
        return True
    if have == want:
        return True
    return have in SAFE and want in SAFE[have]


def values(shape, dtype, seed):
    r = rng(seed)
    x = np.asarray(r.integers(0, 100, shape))
    if dtype == "datetime64[ns]":
        return np.asarray(np.datetime64("2020-01-01", "ns") + x.astype("timedelta64[D]").astype("timedelta64[ns]"))
    if dtype == "U3":
        return x.astype("U3")
    if dtype == "bool":
        return np.asarray(x > 50)
    if dtype.startswith("float"):
        return np.asarray(x / 7).astype(dtype)
    return x.astype(dtype)


def verdict(annotated, value, way):
    """(accepted, the value that comes out)."""
    if way == "model":
        model = pydantic.create_model("M", x=(annotated, ...))
        run = lambda: model(x=value).x
    elif way == "optional":
        model = pydantic.create_model("M", x=(Optional[annotated], None))
        run = lambda: model(x=value).x
    else:
        adapter = TypeAdapter(annotated)
        run = lambda: adapter.validate_python(value)
    try:
        return True, run()
    except (TypeError, ValueError):
        return False, None


def decide(annotated, value, want, way, what):
    before = snapshot(value)
    ok, out = verdict(annotated, value, way)
    ensure(ok == want, f"{what}: {'accepted' if ok else 'rejected'}")
    if ok:
        ensure(out is value, f"{what}: validation returns another object")
    unchanged([value], before, what)


WAYS = st.sampled_from(["adapter", "model", "optional"])
dims = st.lists(st.integers(0, 4), min_size=0, max_size=3)


# ------------------------------------------------------------------------------------------------ arrays
def test_array(case, ctx):
    shape = tuple(case["shape"])
    want_shape = []
    for d, w in zip(shape, case["dims"] + ["same"] * len(shape)):
        want_shape.append({"same": d, "*": "*", "text": str(d), "other": d + 1}[w])
    if case["extra"]:
        want_shape.append("*")
    if case["free_shape"]:
        want_shape = "*"
    want_dtype = {"any": Any, "same": case["dtype"], "other": case["dtype2"]}[case["want"]]
    if want_dtype is not Any and case["as_type"]:
        want_dtype = np.dtype(want_dtype)
    ann = Annotated[np.ndarray, ct._CustomNumpyArrayPydanticAnnotation(
        shape=want_shape if isinstance(want_shape, str) else tuple(want_shape), dtype=want_dtype)]
    x = values(shape, case["dtype"], case["seed"])
    value = {"array": x, "list": x.tolist(), "series": pd.Series(x.ravel()), "none": None, "subclass": x.view(np.ma.MaskedArray)}[case["value"]]
    if value is None and case["way"] == "optional":
        return
    fits = case["value"] in ("array", "subclass")
    if want_dtype is not Any:
        fits = fits and castable(case["dtype"], str(want_dtype) if not isinstance(want_dtype, np.dtype) else case[{"same": "dtype", "other": "dtype2"}[case["want"]]])
    if not isinstance(want_shape, str):
        fits = fits and len(want_shape) == len(shape) and all(w == "*" or int(w) == d for w, d in zip(want_shape, shape))
    decide(ann, value, fits, case["way"], f"{case['value']} of {case['dtype']}, shape {shape}, for shape {want_shape} and dtype {want_dtype}")
    ctx.nontrivial(want_dtype is not Any or not isinstance(want_shape, str))
    ctx.label("accepted" if fits else "rejected")


NUMERIC = [d for d in DTYPES if d not in ("U3", "object")]
array_case = st.fixed_dictionaries(
    {
        "shape": dims,
        "dims": st.lists(st.sampled_from(["same", "same", "*", "text", "other"]), max_size=3),
        "extra": st.sampled_from([False] * 6 + [True]),
        "free_shape": st.sampled_from([False, False, True]),
        "dtype": st.sampled_from(NUMERIC),
        "dtype2": st.sampled_from(NUMERIC),
        "want": st.sampled_from(["any", "same", "other", "other"]),
        "as_type": st.booleans(),
        "value": st.sampled_from(["array"] * 6 + ["subclass", "list", "series", "none"]),
        "way": WAYS,
        "seed": seeds(),
    }
)


# ------------------------------------------------------------------------------------------------ Series
PANDAS = ("float64", "float32", "int64", "int32", "bool", "object", "datetime64[ns]", "category", "Int64", "string")


def column(n, dtype, seed):
    r = rng(seed)
    x = r.integers(0, 50, n)
    if dtype == "datetime64[ns]":
        return pd.Series(pd.Timestamp("2020-01-01") + pd.to_timedelta(x, unit="D"))
    if dtype in ("object", "category", "string"):
        return pd.Series([f"v{i}" for i in x], dtype=dtype)
    return pd.Series(x).astype(dtype)


def test_series(case, ctx):
    n = case["n"]
    s = column(n, case["dtype"], case["seed"])
    dtype = {"any": None, "same": case["dtype"], "other": case["dtype2"]}[case["want"]]
    shape = {"*": "*", "same": n, "other": n + 1, "less": max(0, n - 1)}[case["length"]]
    given = dtype
    if dtype in ("float64", "int64", "bool") and case["as_type"]:
        given = {"float64": float, "int64": int, "bool": bool}[dtype]
    ann = Annotated[pd.Series, ct._CustomPandasSeriesPydanticAnnotation(dtype=given, shape=shape)]
    value = {"series": s, "array": s.to_numpy(), "list": list(s), "frame": s.to_frame(), "index": pd.Index(s)}[case["value"]]
    fits = case["value"] == "series" and (dtype is None or dtype == case["dtype"]) and (shape == "*" or shape == n)
    decide(ann, value, fits, case["way"], f"{case['value']} of {case['dtype']}, length {n}, for dtype {given} and length {shape}")
    ctx.nontrivial(dtype is not None or shape != "*")
    ctx.label("accepted" if fits else "rejected")


series_case = st.fixed_dictionaries(
    {
        "n": st.integers(0, 5),
        "dtype": st.sampled_from(PANDAS),
        "dtype2": st.sampled_from(PANDAS),
        "want": st.sampled_from(["any", "same", "same", "other"]),
        "length": st.sampled_from(["*", "same", "same", "other", "less"]),
        "as_type": st.booleans(),
        "value": st.sampled_from(["series"] * 7 + ["array", "list", "frame", "index"]),
        "way": WAYS,
        "seed": seeds(),
    }
)


# ------------------------------------------------------------------------------------------------ frames
def test_frame(case, ctx):
    n, kinds = case["n"], case["kinds"]
    if case["same_type"]:
        kinds = [kinds[0]] * len(kinds) if kinds else kinds
    if case["odd"] is not None and kinds:
        kinds = list(kinds)
        kinds[case["odd"] % len(kinds)] = case["odd_type"]
    names = [f"c{i}" for i in range(len(kinds))]
    if case["repeat"] and len(names) > 1 and case["check"] != "columns":
        names[-1] = names[0]
    df = pd.concat([column(n, k, case["seed"] + i) for i, k in enumerate(kinds)], axis=1) if kinds else pd.DataFrame(index=range(n))
    df.columns = names
    kw, fits = {}, True
    if case["check"] == "columns":
        want = {}
        for i, (name, kind) in enumerate(zip(names, kinds)):
            mode = case["modes"][i % len(case["modes"])]
            if mode == "skip":
                continue
            want[name] = kind if mode == "same" else case["odd_type"]
            fits = fits and want[name] == kind
        if case["missing"]:
            want["zz"] = "float64"
            fits = False
        kw["columns"] = want
    elif case["check"] == "dtype":
        kw["dtype"] = kinds[0] if kinds else "float64"
        fits = all(k == kw["dtype"] for k in kinds)
    if case["shape"] != "*":
        rows, cols = n + (case["shape"] == "rows"), len(kinds) + (case["shape"] == "cols")
        kw["shape"] = (rows, cols)
        fits = fits and case["shape"] == "same"
    ann = Annotated[pd.DataFrame, ct._CustomPandasDataFramePydanticAnnotation(**kw)]
    value = {"frame": df, "array": df.to_numpy(), "dict": dict(enumerate(kinds)), "series": pd.Series([1.0])}[case["value"]]
    fits = fits and case["value"] == "frame"
    decide(ann, value, fits, case["way"], f"{case['value']} with columns {dict(zip(names, kinds))} ({n} rows) for {kw}")
    ctx.nontrivial(bool(kw))
    ctx.label("accepted" if fits else "rejected", case["check"])


frame_case = st.fixed_dictionaries(
    {
        "n": st.integers(0, 4),
        "kinds": st.one_of(st.lists(st.sampled_from(PANDAS), max_size=4), st.lists(st.sampled_from(PANDAS), min_size=5, max_size=9)),
        "same_type": st.booleans(),
        "odd": st.one_of(st.none(), st.none(), st.integers(0, 8)),
        "odd_type": st.sampled_from(PANDAS),
        "repeat": st.sampled_from([False, False, True]),
        "check": st.sampled_from(["none", "columns", "columns", "dtype"]),
        "modes": st.lists(st.sampled_from(["same", "same", "same", "skip", "other"]), min_size=1, max_size=4),
        "missing": st.sampled_from([False] * 5 + [True]),
        "shape": st.sampled_from(["*", "*", "same", "rows", "cols"]),
        "value": st.sampled_from(["frame"] * 8 + ["array", "dict", "series"]),
        "way": WAYS,
        "seed": seeds(),
    }
)


# ------------------------------------------------------------------------------------------------ unions
def test_alias(case, ctx):
    """The types of the splitters: each data set that one of the alternatives describes is accepted."""
    n, dtype = case["n"], case["dtype"]
    r = rng(case["seed"])
    kind = case["kind"]
    if kind == "series":
        value = column(n, dtype, case["seed"])
    elif kind == "frame":
        value = pd.DataFrame({"a": column(n, dtype, case["seed"]), "b": r.standard_normal(n)})
    elif kind == "list":
        value = list(range(n))
    else:
        if dtype in ("category", "Int64", "string", "object"):
            dtype = "float64"
        value = values((n,) if kind == "array1" else (n, case["cols"]), dtype, case["seed"])
    arr1, arr2, ser = kind == "array1", kind == "array2", kind == "series"
    to = lambda *ts: any(castable(dtype, t) for t in ts)
    want = {
        "IndexType": arr1 and to("int64"),
        "YType": (arr1 and to("int64", "float64", "bool")) or (ser and dtype in ("int64", "float64", "bool")),
        "YTypeArray": arr1 and to("int64", "float64", "bool"),
        "YTypeSeries": ser and dtype in ("int64", "float64", "bool"),
        "XType": arr2 or kind == "frame",
        "BoundPerFoldType": arr2 and case["cols"] == 2 and to("int64"),
    }
    for name, fits in want.items():
        decide(getattr(splits, name), value, fits, case["way"], f"{kind} of {dtype} ({n} rows) for {name}")
    if (arr1 and to("int64")) or (ser and dtype == "int64"):
        decide(splits.GroupType, value, True, case["way"], f"{kind} of {dtype} for GroupType")
    if kind in ("array2", "frame", "list"):
        decide(splits.GroupType, value, False, case["way"], f"{kind} of {dtype} for GroupType")
    ctx.nontrivial(any(want.values()))
    ctx.label(kind)


alias_case = st.fixed_dictionaries(
    {"n": st.integers(0, 5), "dtype": st.sampled_from(["float64", "int64", "bool", "float64", "int64", "int32", "float32", "object", "category", "datetime64[ns]"]),
     "kind": st.sampled_from(["array1", "array2", "series", "frame", "list"]), "cols": st.integers(1, 3), "way": WAYS, "seed": seeds()}
)


def test_mixed_union(case, ctx):
    """A union accepts what one of its members accepts, whatever their order."""
    members = []
    fits = False
    n, dtype = case["n"], case["dtype"]
    value = values((n,), dtype, case["seed"]) if case["array"] else column(n, dtype, case["seed"])
    for m in case["members"]:
        if m["array"]:
            shape = ("*",) if m["free"] else (m["n"],)
            members.append(Annotated[np.ndarray, ct._CustomNumpyArrayPydanticAnnotation(shape=shape, dtype=m["dtype"])])
            fits |= case["array"] and castable(dtype, m["dtype"]) and (m["free"] or m["n"] == n)
        else:
            members.append(Annotated[pd.Series, ct._CustomPandasSeriesPydanticAnnotation(dtype=m["dtype"], shape="*" if m["free"] else m["n"])])
            fits |= not case["array"] and m["dtype"] == dtype and (m["free"] or m["n"] == n)
    decide(Union[tuple(members)], value, fits, case["way"], f"{'array' if case['array'] else 'Series'} of {dtype}, length {n}, for one of {case['members']}")
    ctx.nontrivial(len(members) > 1)
    ctx.label("accepted" if fits else "rejected")


numeric = st.sampled_from(["float64", "int64", "int32", "bool"])
member = st.fixed_dictionaries({"array": st.booleans(), "dtype": numeric, "free": st.booleans(), "n": st.integers(0, 3)})
union_case = st.fixed_dictionaries(
    {"n": st.integers(0, 3), "dtype": numeric, "array": st.booleans(), "members": st.lists(member, min_size=1, max_size=4), "way": WAYS, "seed": seeds()}
)


# ------------------------------------------------------------------------------------------------ JSON and to_numpy
def test_json(case, ctx):
    """An array is written to JSON as nested lists of exactly its values; the schema tells arrays from objects."""
    shape = tuple(case["shape"]) or (2,)
    x = values(shape, case["dtype"], case["seed"])
    if case["dtype"].startswith("float") and case["fractions"]:
        x = (rng(case["seed"]).standard_normal(shape) * 10.0 ** rng(case["seed"]).integers(-30, 30)).astype(case["dtype"])
    ann = Annotated[np.ndarray, ct._CustomNumpyArrayPydanticAnnotation(
        shape=tuple(["*"] * len(shape)) if case["stars"] else shape, dtype=np.dtype(case["dtype"]).type)]
    model = pydantic.create_model("M", x=(ann, ...), name=(str, "n"))
    m = model(x=x)
    for doc in (json.loads(m.model_dump_json()), m.model_dump(), json.loads(json.dumps(m.model_dump(mode="json")))):
        ensure(doc["name"] == "n", "other fields are lost")
        back = np.array(doc["x"], dtype=x.dtype).reshape(shape) if x.size else np.empty(shape)
        ensure(isinstance(doc["x"], list) and (x.size or doc["x"] == x.tolist()) and np.array_equal(back, x), f"JSON of {case['dtype']} {shape}: {doc['x']} instead of {x.tolist()}")
    schema = model.model_json_schema()["properties"]["x"]
    ensure(schema["type"] == "array", f"schema of an array: {schema}")
    if case["dtype"] in ("float64", "int64"):
        ensure(schema["items"] == {"type": "number"}, f"schema of an array of {case['dtype']}: items {schema['items']}")
    else:
        ensure(case["dtype"] != "bool" or schema["items"] != {"type": "number"}, f"schema of an array of bool: items {schema['items']}")
    least = 0 if case["stars"] else shape[0]
    ensure(schema.get("minItems", 0) == least, f"schema of an array of shape {shape}: at least {schema.get('minItems')} items")
    ser = pydantic.create_model("S", s=(Annotated[pd.Series, ct._CustomPandasSeriesPydanticAnnotation(dtype=float, shape=shape[0])], ...))
    sch = ser.model_json_schema()["properties"]["s"]
    ensure(sch["type"] == "array" and sch["items"] == {"type": "number"} and sch["minItems"] == sch["maxItems"] == shape[0], f"schema of a Series: {sch}")
    cols = {f"c{i}": ("float64", "object")[(case["seed"] >> i) % 2] for i in range(1 + case["seed"] % 3)}
    frm = pydantic.create_model("F", f=(Annotated[pd.DataFrame, ct._CustomPandasDataFramePydanticAnnotation(columns=cols)], ...))
    sch = frm.model_json_schema()["properties"]["f"]
    want = {k: {"type": "array", "items": {"type": "number" if v == "float64" else "string"}} for k, v in cols.items()}
    ensure(sch["type"] == "object" and sch["properties"] == want, f"schema of a frame with {cols}: {sch}")
    ctx.nontrivial(x.size > 1)


json_case = st.fixed_dictionaries(
    {"shape": st.lists(st.integers(0, 4), min_size=1, max_size=3), "dtype": st.sampled_from(["float64", "float32", "int64", "int32", "bool"]),
     "stars": st.booleans(), "fractions": st.booleans(), "seed": seeds()}
)


def test_to_numpy(case, ctx):
    n, k = case["n"], case["cols"]
    x = values((n, k), case["dtype"], case["seed"])
    index = pd.Index(rng(case["seed"]).permutation(n))
    before = x.copy()
    ensure(to_numpy(x) is x, "to_numpy(array) is another array")
    s = pd.Series(x[:, 0].copy(), index=index)
    out = to_numpy(s)
    ensure(isinstance(out, np.ndarray) and out.shape == (n,) and out.dtype == x.dtype and np.array_equal(out, x[:, 0]), f"to_numpy(Series): {out!r}")
    df = pd.DataFrame(x.copy(), index=index, columns=[f"c{i}" for i in range(k)])
    out = to_numpy(df)
    ensure(isinstance(out, np.ndarray) and out.shape == (n, k) and out.dtype == x.dtype and np.array_equal(out, x), f"to_numpy(frame): {out!r}")
    ensure(np.array_equal(x, before), "to_numpy changed the data")
    # columns of several types: every cell keeps its value and its type
    kinds = case["kinds"]
    mixed = pd.concat([column(n, d, case["seed"] + i) for i, d in enumerate(kinds)], axis=1)
    mixed.columns = range(len(kinds))
    snap = snapshot(mixed)
    out = to_numpy(mixed)
    unchanged([mixed], snap, "to_numpy")
    ensure(isinstance(out, np.ndarray) and out.shape == mixed.shape, f"to_numpy(frame of {kinds}): {type(out)}")
    numeric = all(d in ("float64", "float32", "int64", "int32") for d in kinds)
    same_kind = len(set(kinds)) == 1 and kinds[0] in ("bool", "datetime64[ns]")
    ensure((out.dtype.kind in "fi") if numeric else (out.dtype == kinds[0]) if same_kind else (out.dtype == object), f"to_numpy(frame of {kinds}): {out.dtype}")
    for j in range(len(kinds)):
        want = mixed[j].tolist()
        got = pd.Series(out[:, j]).tolist() if out.dtype.kind == "M" else out[:, j].tolist()
        ensure(got == want, f"to_numpy(frame of {kinds}), column {j}: {got} instead of {want}")
        ensure(numeric or [type(v) for v in got] == [type(v) for v in want], f"to_numpy(frame of {kinds}), column {j}: other types of values")
    ctx.nontrivial(n > 1 and k > 1)


to_numpy_case = st.fixed_dictionaries(
    {"n": st.integers(1, 6), "cols": st.integers(1, 4), "dtype": st.sampled_from(["float64", "float32", "int64", "int8", "bool", "uint64"]), "seed": seeds(),
     "kinds": st.lists(st.sampled_from(PANDAS), min_size=1, max_size=5)}
)

SUBS = [
    Sub("array", array_case, test_array, quick=900),
    Sub("series", series_case, test_series, quick=600),
    Sub("frame", frame_case, test_frame, quick=900),
    Sub("alias", alias_case, test_alias, quick=250),
    Sub("union", union_case, test_mixed_union, quick=500),
    Sub("json", json_case, test_json, quick=200),
    Sub("to_numpy", to_numpy_case, test_to_numpy, quick=150),
]
