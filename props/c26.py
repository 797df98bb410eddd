"""C26: IGRF coefficients in time."""

import datetime
import pathlib
import tempfile

import numpy as np

from harness import igrf_ref as ref
from harness.core import Property, close, fail, hm, raises, require, same, st
from harness.gens import SEED, pick, rng

PROP = Property(
    "C26", "IGRF coefficients are read and interpolated in time exactly",
    rule="a case is a generated file of coefficients (epochs, style of the numbers, order of the "
    "lines) and dates; non-trivial when it has at least two epochs",
    technique="the written table, interpolated independently from the elapsed seconds, against "
    "the coefficients of the model; equivalent dates against one another",
    assumptions=["the download of the file is replaced by a generated file"],
)


def coefficients(date, path, **kwargs):
    import pooch
    saved = pooch.retrieve
    pooch.retrieve = lambda *a, **k: str(path)
    try:
        return hm.IGRF14(date, **kwargs).coefficients
    finally:
        pooch.retrieve = saved


@st.composite
def file_st(draw):
    return {"seed": draw(SEED), "first": draw(pick(1900, 1900, 1905, 1950, 1988, 2003)),
            "epochs": draw(pick(1, 2, 2, 3, 8, 26)),
            "style": draw(pick("integers", "decimals", "one")),
            "shuffle": draw(st.booleans()), "trailing": draw(st.booleans())}


def written(case, folder):
    g, h = ref.table(case["seed"], case["epochs"], case["style"])
    path = pathlib.Path(folder) / "coefficients.txt"
    ref.write(path, case["first"], g, h, case["seed"], case["style"], case["shuffle"],
              case["trailing"])
    return path, g, h


def compare(actual, expected, g, highest, what):
    for key, a, e in zip("gh", actual, expected):
        a = np.asarray(a)
        if a.shape != (highest + 1, highest + 1):
            fail(f"shape {a.shape} of {key} for maximum degree {highest}")
        close(a, e[: highest + 1, : highest + 1], f"{key} {what}", rtol=1e-11,
              atol=1e-9 * 60000 / 1000)


@st.composite
def date_st(draw):
    case = draw(file_st())
    case["highest"] = draw(pick(13, 13, 13, 1, 2, 7, 12))
    case["lowest"] = draw(st.integers(1, case["highest"]))
    case["when"] = draw(pick("inside", "inside", "epoch", "before epoch", "last period", "end",
                             "start", "leap", "year"))
    case["as"] = draw(pick("datetime", "text", "text", "zone", "utc text"))
    return case


def pick_date(case):
    """A date of the case, without time zone."""
    r = rng(case["seed"] + 7)
    first, epochs = case["first"], case["epochs"]
    start = datetime.datetime(first, 1, 1)
    end = datetime.datetime(first + 5 * epochs, 1, 1)
    us = datetime.timedelta(microseconds=1)
    k = int(r.integers(0, epochs))
    when = case["when"]
    if when == "start":
        return start
    if when == "end":
        return end - us * int(r.choice([1, 10**6, 86400 * 10**6]))
    if when == "epoch":
        return datetime.datetime(first + 5 * k, 1, 1)
    if when == "before epoch":
        return datetime.datetime(first + 5 * (k + 1), 1, 1) - us * int(r.choice([1, 10**6]))
    if when == "year":
        return datetime.datetime(first + int(r.integers(0, 5 * epochs)), 1, 1)
    if when == "leap":
        year = first + int(r.integers(0, 5 * epochs))
        if year % 4 == 0 and year % 100 != 0 or year % 400 == 0:
            return datetime.datetime(year, 2, 29, int(r.integers(0, 24)))
        return datetime.datetime(year, 12, 31, 23, 59, 59)
    if when == "last period":
        start = datetime.datetime(first + 5 * (epochs - 1), 1, 1)
    seconds = (end - start).total_seconds()
    return start + us * int(1e6 * r.uniform(0, seconds - 1))


@PROP.clause("coefficients at a date", date_st(), quick=700, thorough=25000, jit=False, shards=2)
def dates(case, ctx):
    ctx.trivial(case["epochs"] < 2)
    ctx.event(case["when"])
    ctx.event(case["as"])
    naive = pick_date(case)
    r = rng(case["seed"] + 8)
    if case["as"] == "datetime":
        date = naive
    elif case["as"] == "text":
        date = naive.isoformat(sep=" " if r.random() < 0.3 else "T")
        if naive.time() == datetime.time() and r.random() < 0.5:
            date = naive.date().isoformat()
    elif case["as"] == "utc text":
        date = naive.isoformat() + ("Z" if r.random() < 0.5 else "+00:00")
    else:
        offset = datetime.timedelta(minutes=int(r.choice([-720, -330, -60, 0, 60, 345, 840])))
        date = naive.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(offset))
        if r.random() < 0.5:
            date = date.isoformat()
    with tempfile.TemporaryDirectory() as folder:
        path, g, h = written(case, folder)
        out = coefficients(date, path, min_degree=case["lowest"], max_degree=case["highest"])
    expected = ref.at(naive, case["first"], g, h)
    compare(out, expected, g, case["highest"], f"on {date}")
    if case["when"] in ("epoch", "start"):
        k = (naive.year - case["first"]) // 5
        for key, a, e in zip("gh", out, (g[k], h[k])):
            same(np.asarray(a), e[: case["highest"] + 1, : case["highest"] + 1],
                 f"{key} at the epoch {naive.year}")


@PROP.clause("dates outside of the model", st.tuples(file_st(), st.booleans(), st.integers(0, 6)).map(
    lambda t: {**t[0], "late": t[1], "by": t[2]}), quick=250, thorough=5000, jit=False)
def outside(case, ctx):
    start = datetime.datetime(case["first"], 1, 1)
    end = datetime.datetime(case["first"] + 5 * case["epochs"], 1, 1)
    away = [datetime.timedelta(microseconds=1), datetime.timedelta(seconds=1),
            datetime.timedelta(hours=12), datetime.timedelta(days=1), datetime.timedelta(days=200),
            datetime.timedelta(days=366), datetime.timedelta(days=20000)][case["by"]]
    date = end + away - datetime.timedelta(microseconds=1) if case["late"] else start - away
    ctx.event("late" if case["late"] else "early")
    zone = datetime.timezone(datetime.timedelta(hours=3 if case["late"] else -3))
    with tempfile.TemporaryDirectory() as folder:
        path, g, h = written(case, folder)
        for d in (date, date.isoformat(),
                  date.replace(tzinfo=datetime.timezone.utc).astimezone(zone)):
            raises(ValueError, lambda d=d: coefficients(d, path), f"date {d} outside of the model")
        # the model starts and ends exactly there
        inside = end - datetime.timedelta(microseconds=1) if case["late"] else start
        out = coefficients(inside, path)
    compare(out, ref.at(inside, case["first"], g, h), g, 13, f"on {inside}")


@PROP.clause("a model keeps its coefficients", date_st(), quick=100, thorough=2000, jit=False)
def cached(case, ctx):
    """Two models with different dates and files do not share anything."""
    import pooch
    other = {**case, "seed": case["seed"] // 2 + 1, "when": "inside"}
    saved = pooch.retrieve
    with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
        models, expected = [], []
        try:
            for c, folder in ((case, a), (other, b)):
                path, g, h = written(c, folder)
                pooch.retrieve = lambda *args, p_=path, **k: str(p_)
                date = pick_date(c)
                m = hm.IGRF14(date)
                m.coefficients  # noqa: B018
                models.append(m)
                expected.append((date, g, h))
        finally:
            pooch.retrieve = saved
        for m, (date, g, h) in zip(models, expected):
            require(m.date == date, "date of the model")
            for _ in range(2):
                compare(m.coefficients, ref.at(date, case["first"], g, h), g, 13, f"on {date}")
