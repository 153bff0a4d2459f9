"""C08: combinatorial purged cross-validation."""

import itertools
import math

import numpy as np

import gens
import pandas as pd

from core import Skip, rule, scenario

from skfolio.model_selection import CombinatorialPurgedCV, optimal_folds_number

rule("C08", "one state per accepted (observations, folds, test folds, purge, embargo) configuration")


def _folds(n, k):
    """Observation numbers of each fold: equal sizes, the remainder in the last fold."""
    size = n // k
    return [list(range(i * size, (i + 1) * size if i < k - 1 else n)) for i in range(k)]


def _expected_train(n, folds, combo, purge, embargo):
    test = set(itertools.chain.from_iterable(folds[c] for c in combo))
    drop = set()
    for t in test:
        if t - 1 not in test:  # first observation of a test block
            drop |= {t - 1 - d for d in range(purge)}
        if t + 1 not in test:  # last observation of a test block
            drop |= {t + 1 + d for d in range(purge + embargo)}
    return [i for i in range(n) if i not in test and i not in drop]


@scenario("C08", quick=400, thorough=6000)
def splits(ctx):
    rng = ctx.rng
    k = int(rng.integers(3, 9))
    t = int(rng.integers(2, k))
    n = gens.some(rng, k * 2, k * 12)
    size = n // k
    room = size - 2  # purge + embargo must stay below the fold size minus one
    tot = int(rng.integers(0, max(1, room + 1))) if room >= 0 else 0
    purge = int(rng.integers(0, tot + 1))
    embargo = tot - purge
    if rng.random() < 0.15:
        purge, embargo = max(room, 0), 0
    ctx.note(n=n, folds=k, test_folds=t, purge=purge, embargo=embargo)
    cv = CombinatorialPurgedCV(n_folds=k, n_test_folds=t, purged_size=purge, embargo_size=embargo)
    X = rng.normal(size=(n, 2))
    if rng.random() < 0.5:
        X = pd.DataFrame(X, index=pd.date_range("2020-01-01", periods=n))
    if purge + embargo >= size - 1:
        ctx.refused("purge and embargo larger than a fold", lambda: list(cv.split(X)), (ValueError,))
        return
    ctx.state(n, k, t, purge, embargo)
    folds = _folds(n, k)
    out = list(cv.split(X))
    ctx.equal("number of splits produced", len(out), math.comb(k, t))
    ctx.equal("number of splits announced", cv.n_splits, math.comb(k, t))
    n_paths = math.comb(k, t) * t // k
    ctx.equal("number of paths announced", cv.n_test_paths, n_paths)
    ctx.check("numbers of paths and splits are whole", isinstance(cv.n_test_paths, int) and isinstance(cv.n_splits, int))
    seen = []
    for train, tests in out:
        ctx.equal("number of test folds", len(tests), t)
        blocks = [list(map(int, b)) for b in tests]
        ok = ctx.check("test blocks are folds", all(b in folds for b in blocks), blocks=blocks)
        if not ok:
            continue
        combo = tuple(folds.index(b) for b in blocks)
        seen.append(tuple(sorted(combo)))
        ctx.equal("test folds in time order", list(combo), sorted(combo))
        ctx.equal("training set", [int(i) for i in train], _expected_train(n, folds, combo, purge, embargo), combo=combo)
    ctx.equal("every combination exactly once", sorted(seen), list(itertools.combinations(range(k), t)))
    # paths
    ids = np.asarray(cv.get_path_ids())
    ctx.equal("path ids shape", ids.shape, (math.comb(k, t), t))
    ctx.equal("path numbers", sorted(set(ids.ravel().tolist())), list(range(n_paths)))
    on_path = {p: [] for p in range(n_paths)}
    for i, (_, tests) in enumerate(out):
        for j, b in enumerate(tests):
            lb = list(map(int, b))
            if lb in folds:
                on_path[int(ids[i, j])].append(folds.index(lb))
    for p, fs in on_path.items():
        ctx.equal("each fold once on each path", sorted(fs), list(range(k)), path=p)
    # the same path never takes two folds out of time order
    for p, fs in on_path.items():
        ctx.check("a path covers every observation once", sum(len(folds[f]) for f in fs) == n, path=p)
    s = cv.summary(X)
    ctx.equal("summary: observations", int(s["Number of Observations"]), n)
    ctx.equal("summary: folds", int(s["Total Number of Folds"]), k)
    ctx.equal("summary: test folds", int(s["Number of Test Folds"]), t)
    ctx.equal("summary: purge", int(s["Purge Size"]), purge)
    ctx.equal("summary: embargo", int(s["Embargo Size"]), embargo)
    ctx.equal("summary: paths", int(s["Number of Test Paths"]), n_paths)
    ctx.equal("summary: splits", int(s["Number of Training Combinations"]), len(out))
    ctx.equal("summary: average training size", int(s["Average Training Size"]), int(n * (k - t) / k))
    # repeatable
    again = list(cv.split(X))
    ctx.check("repeatable", all(np.array_equal(a[0], b[0]) and all(np.array_equal(x, y) for x, y in zip(a[1], b[1])) for a, b in zip(out, again)))
    tb = np.asarray(cv.binary_train_test_sets)
    want = np.zeros((k, len(out)))
    for i, combo in enumerate(seen):
        want[list(combo), i] = 1
    ctx.equal("binary table", tb, want)


@scenario("C08", quick=1, thorough=1)
def exhaustive_small(ctx):
    """All small configurations."""
    for k in range(3, 7):
        for t in range(2, k):
            for n in range(k, 5 * k + 1):
                size = n // k
                for purge in range(0, size + 1):
                    for embargo in range(0, size + 1 - purge):
                        cv = CombinatorialPurgedCV(n_folds=k, n_test_folds=t, purged_size=purge, embargo_size=embargo)
                        X = np.zeros((n, 1))
                        case = (n, k, t, purge, embargo)
                        if purge + embargo >= size - 1:
                            ctx.refused("small: too large purge and embargo", lambda: list(cv.split(X)), (ValueError,), case=case)
                            continue
                        ctx.state(*case)
                        folds = _folds(n, k)
                        got = [([int(i) for i in tr], [list(map(int, b)) for b in te]) for tr, te in cv.split(X)]
                        want = [(_expected_train(n, folds, c, purge, embargo), [folds[i] for i in c]) for c in itertools.combinations(range(k), t)]
                        ctx.equal("small: splits", sorted(got), sorted(want), case=case)


@scenario("C08", quick=40, thorough=300)
def refusals(ctx):
    rng = ctx.rng
    k = int(rng.integers(3, 10))
    ctx.note(k=k)
    ctx.state(k, ctx.index)
    ctx.refused("two folds", lambda: CombinatorialPurgedCV(n_folds=2, n_test_folds=2), (ValueError,))
    ctx.refused("one test fold", lambda: CombinatorialPurgedCV(n_folds=k, n_test_folds=1), (ValueError,))
    ctx.refused("as many test folds", lambda: CombinatorialPurgedCV(n_folds=k, n_test_folds=k), (ValueError,))
    ctx.refused("more test folds", lambda: CombinatorialPurgedCV(n_folds=k, n_test_folds=k + int(rng.integers(1, 5))), (ValueError,))
    ctx.refused("fractional folds", lambda: CombinatorialPurgedCV(n_folds=k + 0.5, n_test_folds=2), (ValueError,))
    ctx.refused("negative purge", lambda: CombinatorialPurgedCV(n_folds=k, n_test_folds=2, purged_size=-int(rng.integers(1, 4))), (ValueError,))
    ctx.refused("negative embargo", lambda: CombinatorialPurgedCV(n_folds=k, n_test_folds=2, embargo_size=-int(rng.integers(1, 4))), (ValueError,))


@scenario("C08", quick=12, thorough=60)
def optimal_folds(ctx):
    """The suggested configuration is one of least cost."""
    rng = ctx.rng
    n = gens.some(rng, 10, 60)
    ts, tp = int(rng.integers(2, n)), int(rng.integers(2, 60))
    a, b = float(rng.uniform(0.2, 3)), float(rng.uniform(0.2, 3))
    ctx.note(n=n, target_train=ts, target_paths=tp, a=a, b=b)
    ctx.state(n, ts, tp, a, b)

    def cost(k, t):
        paths = math.comb(k, t) * t // k
        return b * abs(paths - tp) / tp + a * abs(n * (k - t) / k - ts) / ts

    k, t = optimal_folds_number(n_observations=n, target_train_size=ts, target_n_test_paths=tp, weight_train_size=a, weight_n_test_paths=b)
    ctx.check("valid configuration", 3 <= k <= n and 2 <= t < k, got=(k, t))
    best = min(cost(i, j) for i in range(3, n + 1) for j in range(2, i))
    ctx.close("least cost", cost(k, t), best, 1e-9, 1e-12, config=(k, t))
