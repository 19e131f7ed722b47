"""C25: frequency detection recognises regular calendars and maps them to durations."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
from pbt.core import Sub, ensure, rng, seeds
from pbt.gen import snapshot, unchanged

PROPERTY = "C25"
RULE = "a calendar with at least 3 dates, or an irregular/too short/non-date input that must give no frequency"
ASSUMPTIONS = [
    "regular calendars have at least 3 dates; 4 month ends may be taken for quarter ends within the documented tolerance",
    "working-day calendars with irregularities have at least 24 dates (the documented criterion is 'roughly 5 days a week')",
    "month, quarter and year calendars are those of the calendar year; fiscal years are not generated",
]
# code: (pandas offset, months per step or None, minimal number of dates)
CALENDARS = {"D": "D", "B": "B", "W": None, "ME": "ME", "MS": "MS", "QE": "QE", "QS": "QS", "YE": "YE", "YS": "YS"}
WEEKDAYS = ("MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN")
DURATION = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "M": 1 / 12, "ME": 1 / 12, "MS": 1 / 12, "Q": 1 / 4, "QE": 1 / 4,
            "QS": 1 / 4, "Y": 1.0, "YE": 1.0, "YS": 1.0}
CONTAINERS = ("index", "index_nofreq", "series", "frame", "frame_nofreq")


def dates(case):
    code = case["code"]
    start = pd.Timestamp("1800-01-01") + pd.Timedelta(days=case["start"])
    n = case["n"]
    if code[0] == "Y":
        n = min(n, 60)
    if code[0] == "Q":
        n = min(n, 250)
    freq = CALENDARS[code] or "W-" + WEEKDAYS[case["weekday"]]
    idx = pd.date_range(start, periods=n, freq=freq)
    return idx


def decorate(idx, case):
    """Time of day, time zone, name: none of them matters."""
    if case["clock"]:
        idx = idx + pd.Timedelta(hours=case["clock"], minutes=30)
    if case["tz"]:
        # keep clear of clock times that do not exist or exist twice
        if not case["clock"]:
            idx = idx + pd.Timedelta(hours=12)
        idx = idx.tz_localize(case["tz"])
    return idx.rename(case["name"])


def contain(idx, case):
    kind, r = case["container"], rng(case["seed"])
    if kind.endswith("nofreq"):
        idx = pd.DatetimeIndex(list(idx), name=idx.name)
    if kind.startswith("index"):
        return idx
    if kind == "series":
        return pd.Series(r.standard_normal(len(idx)), idx)
    return pd.DataFrame(r.standard_normal((len(idx), 2)), idx, columns=["a", "b"])


def check(obj, want, what):
    snap = snapshot(obj)
    got = time_series_freq(obj)
    unchanged([obj], snap, "time_series_freq")
    if want is None:
        ensure(got is None, f"{what}: reported as {got!r}, expected no frequency")
        return
    ensure(got == want, f"{what}: reported as {got!r}, expected {want!r}")
    ensure(time_series_freq_to_duration(got) == DURATION[want], f"{got} lasts {time_series_freq_to_duration(got)}")


def describe(idx):
    return f"{len(idx)} dates from {idx[0]} to {idx[-1]}" + (f" ({', '.join(map(str, idx[:12]))})" if len(idx) < 13 else "")


def short_test(case, ctx):
    """The shortest calendars whose dates leave no doubt."""
    code, n = case["code"], case["few"]
    if code in ("ME", "MS") and n == 4:
        n = 5  # two of four month ends may be quarter ends, which the documented tolerance takes for quarters
    idx = dates(dict(case, n=n))
    if code == "B" and not (np.diff(idx.values).astype("timedelta64[D]").astype(int) == 3).any():
        return  # days within a week
    idx = decorate(idx, case)
    check(contain(idx, case), code, describe(idx))
    ctx.label(code, f"{n} dates")
    ctx.nontrivial()


def regular_test(case, ctx):
    idx = decorate(dates(case), case)
    check(contain(idx, case), case["code"], describe(idx))
    ctx.label(case["code"], "tz" if case["tz"] else "naive")
    ctx.nontrivial()


def drop(idx, where):
    return idx[[i for i in range(len(idx)) if i not in where]]


def irregular_test(case, ctx):
    """One or two missing or shifted dates do not change the answer."""
    code = case["code"]
    r = rng(case["seed"])
    n_irr = case["n_irr"]
    idx = dates(dict(case, n=max(case["n"], 24 if code == "B" else 12)))
    n = len(idx)
    # isolated: interior positions at least three apart
    first = 1 if case["seed"] % 4 == 0 else int(r.integers(2, n - 6))
    where = [first] + ([int(r.integers(first + 3, n - 2))] if n_irr == 2 else [])
    if case["how"] == "missing":
        idx = drop(idx, where)
    else:
        # a shifted day makes two irregular steps of a daily/weekly series, so only one of those is tolerated
        if code in ("D", "W"):
            where = where[:1]
        arr = idx.to_series().reset_index(drop=True)
        for w in where:
            if code in ("D", "B"):
                shift = pd.Timedelta(hours=int(r.integers(1, 11)))
            elif code == "W":
                shift = pd.Timedelta(days=int(r.choice([-2, -1, 1, 2])))
            elif code[1] == "E":
                shift = -pd.Timedelta(days=int(r.integers(1, 4)))
            else:
                shift = pd.Timedelta(days=int(r.integers(1, 4)))
            arr[w] = arr[w] + shift
        idx = pd.DatetimeIndex(arr)
    idx = decorate(idx, dict(case, clock=min(case["clock"], 10)))
    check(contain(idx, case), code, f"{case['how']} {where}: " + describe(idx))
    ctx.label(code, case["how"])
    ctx.nontrivial()


def holidays_test(case, ctx):
    """Working days with a realistic number of holidays (up to 4%)."""
    idx = dates(dict(case, code="B", n=max(case["n"], 60)))
    r = rng(case["seed"])
    n = len(idx)
    k = int(0.04 * n)
    where = set(int(i) for i in r.choice(np.arange(1, n - 1), k, replace=False))
    idx = decorate(drop(idx, where), case)
    check(contain(idx, case), "B", f"{k} holidays, " + describe(idx))
    ctx.nontrivial(k > 0)


def near_bounds(idx):
    d = idx.to_series().dt
    return max(int((d.day == 1).sum()), int(d.is_month_end.sum()))


def none_test(case, ctx):
    """Irregular or too short data give no frequency."""
    r = rng(case["seed"])
    start = pd.Timestamp("1800-01-01") + pd.Timedelta(days=case["start"])
    kind, n = case["irr"], case["n"]
    if kind == "short":
        code = case["code"]
        idx = dates(dict(case, n=case["few"]))
        if case["clock"] or case["tz"]:
            idx = decorate(idx, case)
        check(contain(idx, case), None, "too short: " + (describe(idx) if len(idx) else "no dates"))
        ctx.label(kind, code)
        ctx.nontrivial()
        return
    if kind == "gaps":  # steps that fit no calendar
        steps = r.choice([2, 4, 5, 6, 8, 9, 10, 11, 12, 13, 16, 17, 18], n)
        idx = start + pd.to_timedelta(np.cumsum(steps), "D")
    elif kind == "every":
        step = int(r.choice([2, 4, 5, 6, 8, 10, 14, 21, 28]))
        idx = pd.date_range(start, periods=n, freq=f"{step}D")
    elif kind == "repeated":  # several rows per date
        idx = dates(case).repeat(int(r.integers(2, 5)))
        for code in ("series", "frame_nofreq", "index_nofreq"):
            check(contain(idx, dict(case, container=code)), None, "repeated dates: " + describe(idx))
    elif kind == "intraday":
        minutes = int(r.choice([1, 5, 15, 30, 60, 120]))
        idx = pd.date_range(start, periods=n, freq=f"{minutes}min")
    elif kind == "intraday_end":  # within the last day of a month, quarter or year, or the first one
        end = start + {0: pd.offsets.MonthEnd(1), 1: pd.offsets.QuarterEnd(1), 2: pd.offsets.YearEnd(1),
                       3: pd.offsets.YearBegin(1), 4: pd.offsets.MonthBegin(1)}[int(r.integers(0, 5))]
        idx = pd.date_range(end.normalize() + pd.Timedelta(hours=8), periods=min(n, 60), freq="10min")
    else:  # a daily part and a weekly part, in any order
        h = max(4, n // 2)
        k = max(h, int(h * case["few"]))
        a, b = (("D", 1), ("7D", 7))[:: 1 if case["seed"] % 2 else -1]
        idx = pd.date_range(start, periods=k, freq=a[0])
        idx = idx.append(pd.date_range(idx[-1] + pd.Timedelta(days=b[1]), periods=h, freq=b[0]))
    if kind not in ("repeated", "intraday", "intraday_end") and near_bounds(idx) >= len(idx) - 3:
        return
    idx = pd.DatetimeIndex(idx, name=case["name"])
    if case["tz"] and kind not in ("intraday", "intraday_end"):
        idx = (idx.normalize() + pd.Timedelta(hours=12)).tz_localize(case["tz"])
    check(contain(idx, case), None, kind + ": " + describe(idx))
    ctx.label(kind)
    ctx.nontrivial()


def containers_test(case, ctx):
    """An index, a series and a frame with the same dates have the same frequency, also when it is not obvious."""
    r = rng(case["seed"])
    idx = dates(case)
    n = len(idx)
    how = case["how"]
    if how == "some_repeated":
        idx = idx.repeat(1 + (r.random(n) < case["share"]))
    elif how == "some_missing":
        idx = idx[r.random(n) >= case["share"]]
    elif how == "two_calendars":
        idx = idx.union(dates(dict(case, code=case["other"], n=max(8, n // 2))))
    elif how == "shifted":
        idx = pd.DatetimeIndex(np.sort(idx + pd.to_timedelta(np.where(r.random(n) < case["share"], r.integers(-3, 4, n), 0), "D")))
    idx = decorate(idx, case)
    got = {c: time_series_freq(contain(idx, dict(case, container=c))) for c in CONTAINERS}
    ensure(len(set(got.values())) == 1, f"{how}: {got} for " + (describe(idx) if len(idx) else "no dates"))
    # the values and the names of the columns do not matter, nor does the time of day or the zone
    other = pd.DataFrame({"date": np.arange(len(idx)), "x": "text"}, index=idx.tz_localize(None).normalize())
    ensure(time_series_freq(other) == got["index"], f"{how}: {time_series_freq(other)} without times, {got['index']} with them")
    ctx.label(how, str(got["index"]))
    ctx.nontrivial(len(idx) > 2)


def non_date_test(case, ctx):
    idx = dates(case)
    n = len(idx)
    v = np.arange(n, dtype=float)
    objs = {
        "list": list(idx), "array": v, "none": None, "number": 3.5, "string": "D",
        "series": pd.Series(v), "frame": pd.DataFrame({"date": idx, "x": v}), "array_dates": idx.values,
        "str_index": pd.Series(v, [str(i) for i in idx]), "int_index": pd.Series(v, range(n)), "index": pd.RangeIndex(n),
        "empty": pd.Series([], dtype=float), "empty_dates": pd.Series([], index=pd.DatetimeIndex([]), dtype=float),
        "values": pd.Series(idx), "offset": pd.offsets.Day(1), "timestamp": idx[0],
    }
    for kind, o in objs.items():
        got = time_series_freq(o)
        ensure(got is None, f"{kind}: reported as {got!r}")
    ctx.nontrivial()


def duration_test(case, ctx):
    code = case["code"]
    want = DURATION[code]
    got = time_series_freq_to_duration(code)
    ensure(got == want, f"{code}: {got}, expected {want}")
    if code in ("W",):
        anchors = [f"W-{d}" for d in WEEKDAYS]
    elif code[0] in "QY":
        anchors = [f"{code}-{m}" for m in ("JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC")]
    else:
        anchors = []
    for a in anchors:
        ensure(time_series_freq_to_duration(a) == want, f"{a}: {time_series_freq_to_duration(a)}, expected {want}")
    unknown = case["unknown"]
    if unknown.split("-")[0] not in DURATION:
        ensure(time_series_freq_to_duration(unknown) is None, f"{unknown!r}: {time_series_freq_to_duration(unknown)}")
    for u in (None, "", "H", "h", "min", "Banana", "d", "b", "XYZ", 1, 0.5):
        ensure(time_series_freq_to_duration(u) is None, f"{u!r}: {time_series_freq_to_duration(u)}")
    # the code pandas itself infers for a regular calendar has the same duration
    idx = dates(dict(case, code=code if code in CALENDARS else code + "E", n=max(case["n"], 10)))
    inferred = pd.infer_freq(idx)
    if inferred is not None and not inferred[0].isdigit():
        ensure(time_series_freq_to_duration(inferred) == want, f"{inferred}: {time_series_freq_to_duration(inferred)}")
    ctx.nontrivial()


ZONES = (None, None, None, "UTC", "Europe/Amsterdam", "America/New_York", "Asia/Tokyo", "Australia/Sydney")
base = dict(
    code=st.sampled_from(sorted(CALENDARS)), start=st.integers(0, 250 * 365), n=st.one_of(st.integers(8, 40), st.integers(8, 900)),
    weekday=st.integers(0, 6), clock=st.sampled_from([0, 0, 9, 16, 23]), tz=st.sampled_from(ZONES),
    name=st.sampled_from([None, "when"]), container=st.sampled_from(CONTAINERS), seed=seeds(),
)
SUBS = [
    Sub("regular", st.fixed_dictionaries(base), regular_test, quick=700),
    Sub("short", st.fixed_dictionaries(dict(base, few=st.integers(3, 8))), short_test, quick=300),
    Sub("irregularities", st.fixed_dictionaries(dict(
        base, n_irr=st.integers(1, 2), how=st.sampled_from(["missing", "shifted"]))), irregular_test, quick=500),
    Sub("holidays", st.fixed_dictionaries(base), holidays_test, quick=120),
    Sub("no_frequency", st.fixed_dictionaries(dict(
        base, irr=st.sampled_from(["short", "gaps", "every", "intraday", "intraday_end", "mixed", "repeated"]), few=st.integers(0, 2))),
        none_test, quick=500),
    Sub("containers", st.fixed_dictionaries(dict(
        base, how=st.sampled_from(["some_repeated", "some_missing", "two_calendars", "shifted"]), other=st.sampled_from(sorted(CALENDARS)),
        share=st.sampled_from([0.02, 0.1, 0.3, 0.7]))), containers_test, quick=200),
    Sub("non_dates", st.fixed_dictionaries(dict(base, n=st.integers(1, 40))), non_date_test, quick=60),
    Sub("durations", st.fixed_dictionaries(dict(
        base, code=st.sampled_from(sorted(DURATION)), unknown=st.text("DBWMQYEShmin2-", max_size=4))), duration_test, quick=200),
]
