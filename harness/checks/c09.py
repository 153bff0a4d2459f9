"""C09: walk-forward cross-validation."""

import datetime as dt

import numpy as np

import gens
import pandas as pd

from core import Skip, rule, scenario

from skfolio.model_selection import WalkForward

rule("C09", "one state per configuration and calendar with at least one split")


def _safety(ctx, out, n, purge, tag):
    prev_end = None
    for train, test in out:
        ctx.check(f"{tag}: consecutive training rows", np.all(np.diff(train) == 1))
        ctx.check(f"{tag}: consecutive test rows", np.all(np.diff(test) == 1))
        ctx.check(f"{tag}: rows exist", all(len(s) == 0 or (s[0] >= 0 and s[-1] < n) for s in (train, test)))
        if len(train) and len(test):
            ctx.check(f"{tag}: training never reaches the test block", train[-1] < test[0], train_end=train[-1], test_start=test[0])
            ctx.check(f"{tag}: purged", test[0] - train[-1] - 1 >= purge, gap=test[0] - train[-1] - 1, purge=purge)
        if len(test):
            if prev_end is not None:
                ctx.equal(f"{tag}: test blocks directly follow each other", int(test[0]), prev_end + 1)
            prev_end = int(test[-1])


@scenario("C09", quick=700, thorough=10000)
def integer_sizes(ctx):
    rng = ctx.rng
    n = gens.some(rng, 3, 80)
    train = int(rng.integers(1, n))
    test = int(rng.integers(1, max(2, n // 2)))
    purge = int(rng.integers(0, 6)) if rng.random() < 0.6 else 0
    expand, reduce = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    ctx.note(n=n, train=train, test=test, purge=purge, expand=expand, reduce=reduce)
    cv = WalkForward(test_size=test, train_size=train, purged_size=purge, expend_train=expand, reduce_test=reduce)
    X = np.zeros((n, 2)) if rng.random() < 0.5 else pd.DataFrame(np.zeros((n, 2)), index=pd.date_range("2020-01-01", periods=n))
    if train + purge >= n:
        ctx.refused("nothing left to test", lambda: list(cv.split(X)), (ValueError,))
        return
    out = list(cv.split(X))
    want = []
    s = train + purge
    while s < n:
        e = s + test
        if e > n and not reduce:
            break
        want.append((list(range(0 if expand else s - purge - train, s - purge)), list(range(s, min(e, n)))))
        s = e
    ctx.state(n, train, test, purge, expand, reduce)
    ctx.equal("splits", [(list(map(int, a)), list(map(int, b))) for a, b in out], want)
    ctx.equal("announced number of splits", cv.get_n_splits(X), len(want))
    _safety(ctx, out, n, purge, "integer")


FREQS = ["W-FRI", "W-MON", "2W-WED", "WOM-3FRI", "MS", "ME", "BMS", "BME", "QS", "QE", "2MS", "SMS", "5D", "10B", "B"]


def _calendar(rng, sparse=False):
    n = int(rng.integers(60, 400))
    start = pd.Timestamp("2019-01-01") + pd.Timedelta(days=int(rng.integers(0, 400)))
    kind = str(rng.choice(["business", "daily", "holes"] if not sparse else ["sparse"]))
    if kind == "business":
        idx = pd.bdate_range(start, periods=n)
    elif kind == "daily":
        idx = pd.date_range(start, periods=n)
    elif kind == "holes":
        full = pd.bdate_range(start, periods=int(n * 1.15))
        idx = full[np.sort(rng.permutation(len(full))[:n])]
    else:
        full = pd.date_range(start, periods=n * 6)
        idx = full[np.sort(rng.permutation(len(full))[:n])]
    if rng.random() < 0.15:
        idx = idx + pd.Timedelta(hours=16)
    return idx, kind


def _resolve(idx, date, previous):
    """Number of the observation a date stands for, or None."""
    if previous:
        before = [i for i, t in enumerate(idx) if t <= date]
        return before[-1] if before else None
    after = [i for i, t in enumerate(idx) if t >= date]
    return after[0] if after else None


def _resolve_all(idx, dates, previous):
    v = idx.values
    out = []
    for d in dates:
        d = np.datetime64(d)
        if previous:
            k = int((v <= d).sum()) - 1
            out.append(k if k >= 0 else None)
        else:
            k = int((v < d).sum())
            out.append(k if k < len(v) else None)
    return out


def _reference(idx, test, train, freq, offset, previous, expand, reduce, purge):
    n = len(idx)
    first = idx[0]
    if offset is not None:
        first = min(first, first - offset)
    dates = pd.date_range(first, idx[-1], freq=freq)
    if offset is not None:
        dates = [d + offset for d in dates]
    dates = list(dates)
    marks = _resolve_all(idx, dates, previous)
    out = []
    if isinstance(train, int):
        pts = [m for m in marks if m is not None]
        i = 0
        while i + train < len(pts):
            s = pts[i + train]
            if i + train + test < len(pts):
                e = pts[i + train + test]
            elif reduce:
                e = n
            else:
                break
            out.append((list(range(0 if expand else pts[i], s - purge)), list(range(s, e))))
            i += test
    else:
        pairs = [(m, _resolve_all(idx, [d - train], True)[0]) for m, d in zip(marks, dates) if m is not None]
        i = 0
        while i < len(pairs) and pairs[i][1] is None:
            i += 1
        while i < len(pairs):
            s, t0 = pairs[i]
            if i + test < len(pairs):
                e = pairs[i + test][0]
            elif reduce:
                e = n
            else:
                break
            out.append((list(range(0 if expand else t0, s - purge)), list(range(s, e))))
            i += test
    return out


def _config(rng):
    freq = str(rng.choice(FREQS))
    if rng.random() < 0.15:
        freq = pd.offsets.MonthBegin(1) if rng.random() < 0.5 else pd.offsets.Week(2, weekday=3)
    offset = None
    if rng.random() < 0.5:
        offset = [pd.offsets.BDay(2), pd.offsets.BDay(5), dt.timedelta(days=3), pd.offsets.Day(10), dt.timedelta(days=-4),
                  pd.offsets.BDay(-3), pd.DateOffset(days=7)][int(rng.integers(7))]
    if rng.random() < 0.5:
        train = int(rng.integers(1, 7))
    else:
        train = [pd.DateOffset(months=3), pd.DateOffset(days=40), dt.timedelta(days=25), pd.offsets.BDay(30), pd.DateOffset(months=1, days=5),
                 dt.timedelta(days=90), pd.offsets.QuarterEnd(1)][int(rng.integers(7))]
    return dict(freq=freq, freq_offset=offset, train_size=train, test_size=int(rng.integers(1, 5)),
                previous=bool(rng.random() < 0.5), expend_train=bool(rng.random() < 0.4), reduce_test=bool(rng.random() < 0.5),
                purged_size=int(rng.choice([0, 0, 1, 3])))


def _run(ctx, sparse):
    rng = ctx.rng
    idx, kind = _calendar(rng, sparse)
    c = _config(rng)
    ctx.note(kind=kind, n=len(idx), start=idx[0], **c)
    X = pd.DataFrame(np.zeros((len(idx), 2)), index=idx)
    cv = WalkForward(**c)
    want = _reference(idx, c["test_size"], c["train_size"], c["freq"], c["freq_offset"], c["previous"], c["expend_train"], c["reduce_test"], c["purged_size"])
    out = list(cv.split(X))
    if want:
        ctx.state(kind, len(idx), str(idx[0]), *[str(v) for v in c.values()])
    ctx.equal("splits", [(list(map(int, a)), list(map(int, b))) for a, b in out], want)
    ctx.equal("announced number of splits", cv.get_n_splits(X), len(out))
    _safety(ctx, out, len(idx), c["purged_size"], "calendar")


@scenario("C09", quick=500, thorough=8000)
def calendar(ctx):
    _run(ctx, False)


@scenario("C09", quick=150, thorough=2500)
def sparse_calendar(ctx):
    _run(ctx, True)


@scenario("C09", quick=40, thorough=300)
def refusals(ctx):
    rng = ctx.rng
    n = gens.some(rng, 20, 60)
    A = np.zeros((n, 2))
    X = pd.DataFrame(A, index=pd.date_range("2020-01-01", periods=n))
    ctx.note(n=n)
    ctx.state(n, ctx.index)
    R = lambda name, **kw: ctx.refused(name, lambda: list(WalkForward(**kw).split(A)), (ValueError,))
    R("fractional test size", test_size=2.5, train_size=5)
    R("offset training size without frequency", test_size=2, train_size=pd.DateOffset(months=1))
    R("frequency without dates", test_size=1, train_size=1, freq="MS")
    ctx.refused("frequency with an integer index", lambda: list(WalkForward(test_size=1, train_size=1, freq="MS").split(X.reset_index(drop=True))), (ValueError,))
    ctx.refused("number of splits without data", lambda: WalkForward(test_size=1, train_size=1).get_n_splits(), (ValueError,))
