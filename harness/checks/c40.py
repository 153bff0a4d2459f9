"""C40: what the figures show."""

import numpy as np
import pandas as pd
import scipy.stats as st

import gens
import refs
from core import Skip, rule, scenario
from ptfgen import FAST, MEASURES, rand_portfolio

from skfolio import Population
from skfolio.model_selection import CombinatorialPurgedCV
from skfolio.portfolio import MultiPeriodPortfolio

rule("C40", "one state per figure drawn: the portfolios' returns and weights, the figure kind and its arguments")

SMOOTH = [m for m in FAST if m not in refs.QUANTILE]


def _arr(v):
    return np.asarray(v, dtype=float)


def _portfolio(rng, X, name=None, tag=None, compounded=None):
    p, _ = rand_portfolio(rng, X=X, name=name, tag=tag)
    if compounded is not None:
        p.compounded = compounded
    return p


def _multi(rng, X, name=None, tag=None, compounded=None):
    cuts = sorted({0, len(X), *[int(c) for c in rng.integers(5, len(X) - 5, size=int(rng.integers(1, 3)))]})
    parts = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        if b - a < 3:
            raise Skip
        parts.append(_portfolio(rng, X.iloc[a:b], name=f"p{a}"))
    m = MultiPeriodPortfolio(portfolios=parts, name=name, tag=tag)
    if compounded is not None:
        m.compounded = compounded
    return m


def _table(rng, n=None, m=None):
    n = n or gens.some(rng, 16, 60)
    m = m or gens.some(rng, 2, 9)
    return gens.frame(rng, gens.market(rng, n, m), index=gens.dates(rng, n))


def _one(rng):
    X = _table(rng)
    return (_multi if rng.random() < 0.4 else _portfolio)(rng, X, name="mine"), X


def _idx(rng, n):
    k = int(rng.integers(3))
    if k == 0:
        a = int(rng.integers(0, n - 4))
        return slice(a, int(rng.integers(a + 2, n + 1)))
    if k == 1:
        return np.sort(rng.choice(n, size=int(rng.integers(2, n)), replace=False))
    return slice(None, None, int(rng.integers(2, 4)))


def _line(ctx, name, trace, index, values, **kw):
    ctx.equal(f"{name}_dates", list(pd.DatetimeIndex(trace.x)), list(pd.DatetimeIndex(index)), **kw)
    ctx.close(f"{name}_values", _arr(trace.y), _arr(values), rtol=1e-9, atol=1e-12, **kw)




@scenario("C40", quick=80, thorough=1500)
def portfolio_lines(ctx):
    rng = ctx.rng
    p, X = _one(rng)
    r = _arr(p.returns)
    n = len(r)
    p.compounded = bool(rng.random() < 0.5)
    idx = None if rng.random() < 0.4 else _idx(rng, n)
    sl = slice(None) if idx is None else idx
    obs = np.asarray(p.observations)
    ctx.note(kind=type(p).__name__, idx=idx, compounded=p.compounded)
    ctx.state("lines", type(p).__name__, r, str(idx), p.compounded)
    fig = p.plot_returns(idx=idx)
    ctx.equal("returns_one_line", len(fig.data), 1)
    _line(ctx, "returns", fig.data[0], obs[sl], r[sl])
    log = p.compounded and rng.random() < 0.5
    if np.all(r > -1) or not p.compounded:
        fig = p.plot_cumulative_returns(log_scale=bool(log), idx=idx)
        ctx.equal("cumulative_one_line", len(fig.data), 1)
        _line(ctx, "cumulative", fig.data[0], obs[sl], _arr(p.cumulative_returns)[sl])
        ctx.equal("log_axis", fig.layout.yaxis.type == "log", bool(log))
        want = np.cumsum(r) if not p.compounded else np.cumprod(1 + r)
        got = _arr(fig.data[0].y)
        if p.compounded:
            ctx.close("compounded_shape", got / got[0], want[sl] / want[sl][0], rtol=1e-8)
        else:
            ctx.close("added_up", got, want[sl], rtol=1e-8, atol=1e-12)
    if not p.compounded:
        ctx.refused("log_needs_compounding", lambda: p.plot_cumulative_returns(log_scale=True), (ValueError,))


@scenario("C40", quick=60, thorough=1000)
def rolling(ctx):
    rng = ctx.rng
    p, X = _one(rng)
    name = str(rng.choice(SMOOTH))
    e = MEASURES[name]
    window = int(rng.integers(2, max(3, len(p.returns) // 2)))
    ctx.note(kind=type(p).__name__, measure=name, window=window)
    ctx.state("rolling", type(p).__name__, _arr(p.returns), name, window)
    with np.errstate(all="ignore"):
        fig = p.plot_rolling_measure(measure=e, window=window)
        series = p.rolling_measure(measure=e, window=window)
        overall = getattr(p, name)
    ctx.equal("one_line", len(fig.data), 1)
    _line(ctx, "rolling", fig.data[0], p.observations, series)
    lines = [s for s in fig.layout.shapes if s.type == "line"]
    ctx.equal("one_reference_line", len(lines), 1)
    if lines:
        ctx.close("reference_is_whole_period", [lines[0].y0, lines[0].y1], [overall, overall], rtol=1e-9)
    hi, lo = np.nanmax(series), np.nanmin(series)
    bands = [s for s in fig.layout.shapes if s.type == "rect"]
    ctx.equal("bands_only_across_zero", len(bands), 2 if hi > 0 > lo else 0)
    if len(bands) == 2:
        for s in bands:
            a, b = sorted([s.y0, s.y1])
            ctx.check("band_side", (a == 0 and b >= hi and s.fillcolor == "green") or (b == 0 and a <= lo and s.fillcolor == "red"), shape=s.to_plotly_json())


@scenario("C40", quick=60, thorough=1000)
def density(ctx):
    rng = ctx.rng
    X = _table(rng)
    ms = [(_multi if rng.random() < 0.3 else _portfolio)(rng, X, name=f"m{i}") for i in range(int(rng.integers(1, 5)))]
    ctx.note(members=len(ms))
    ctx.state("density", *[_arr(p.returns) for p in ms])
    if any(np.ptp(_arr(p.returns)) < 1e-8 for p in ms):
        raise Skip
    figs = [(ms[0].plot_returns_distribution(), ms[:1]), (Population(ms).plot_returns_distribution(), ms)]
    for fig, group in figs:
        ctx.equal("one_curve_each", len(fig.data), len(group))
        for t, p in zip(fig.data, group):
            r = _arr(p.returns)
            x, y = _arr(t.x), _arr(t.y)
            ctx.close("range", [x.min(), x.max()], np.percentile(r, [0.1, 99.9]), rtol=1e-9, atol=1e-14)
            h = r.std(ddof=1) * len(r) ** (-0.2)
            want = st.norm.pdf((x[:, None] - r[None, :]) / h).mean(axis=1) / h
            ctx.close("gaussian_kernel_density", y, want, rtol=1e-6, atol=1e-9)
            if len(group) > 1:
                ctx.equal("curve_name", t.name, p.name)


def _bars(fig):
    """name -> {x: y} over all traces."""
    out = {}
    for t in fig.data:
        d = out.setdefault(str(t.name), {})
        for x, y in zip(t.x, t.y):
            d[str(x)] = d.get(str(x), 0.0) + float(y)
    return out


def _matches(ctx, name, fig, df):
    bars = _bars(fig)
    ctx.equal(f"{name}_assets", sorted(bars), sorted(str(i) for i in df.index))
    for a in df.index:
        row = bars.get(str(a), {})
        ctx.equal(f"{name}_columns", sorted(row), sorted(str(c) for c in df.columns))
        ctx.close(f"{name}_values", [row.get(str(c), np.nan) for c in df.columns], _arr(df.loc[a]), rtol=1e-9, atol=1e-12, asset=a)


@scenario("C40", quick=60, thorough=1000)
def bars(ctx):
    rng = ctx.rng
    X = _table(rng)
    k = int(rng.integers(1, 5))
    ms = [(_multi if rng.random() < 0.4 else _portfolio)(rng, X, name=str(rng.choice(["a", "b", "c d"]))) for _ in range(k)]
    pop = Population(ms)
    sub = bool(rng.random() < 0.5)
    name = str(rng.choice(SMOOTH))
    e = MEASURES[name]
    spacing = None if rng.random() < 0.5 else 10.0 ** -int(rng.integers(3, 6))
    ctx.note(names=[p.name for p in ms], kinds=[type(p).__name__ for p in ms], sub=sub, measure=name, spacing=spacing)
    ctx.state("bars", *[_arr(p.returns) for p in ms], sub, name)
    p = ms[0]
    _matches(ctx, "composition", p.plot_composition(), p.composition)
    _matches(ctx, "population_composition", pop.plot_composition(display_sub_ptf_name=sub), pop.composition(display_sub_ptf_name=sub))
    with np.errstate(all="ignore"):
        want = p.contribution(measure=e, spacing=spacing, to_df=True)
        if np.all(np.isfinite(want.values)):
            _matches(ctx, "contribution", p.plot_contribution(measure=e, spacing=spacing), want)
        want = pop.contribution(measure=e, spacing=spacing, display_sub_ptf_name=sub)
        if np.all(np.isfinite(want.values)):
            _matches(ctx, "population_contribution", pop.plot_contribution(measure=e, spacing=spacing, display_sub_ptf_name=sub), want)


@scenario("C40", quick=60, thorough=1000)
def population_lines(ctx):
    rng = ctx.rng
    X = _table(rng)
    k = int(rng.integers(1, 7))
    comp = bool(rng.random() < 0.5)
    ms = []
    for i in range(k):
        p = (_multi if rng.random() < 0.3 else _portfolio)(rng, X, name=f"m{i}", tag=None if rng.random() < 0.5 else "t", compounded=comp)
        ms.append(p)
    if comp and any(np.min(_arr(p.returns)) <= -1 for p in ms):
        raise Skip
    pop = Population(ms)
    idx = None if rng.random() < 0.3 else _idx(rng, len(X))
    sl = slice(None) if idx is None else idx
    ctx.note(k=k, compounded=comp, idx=idx)
    ctx.state("plines", *[_arr(p.returns) for p in ms], comp, str(idx))
    log = bool(comp and rng.random() < 0.5)
    fig = pop.plot_cumulative_returns(log_scale=log, idx=idx)
    ctx.equal("line_per_portfolio", len(fig.data), k)
    ctx.equal("log_axis", fig.layout.yaxis.type == "log", log)
    for t, p in zip(fig.data, ms):
        ctx.equal("line_name", t.name, p.name if p.tag is None else f"{p.name}_{p.tag}")
        _line(ctx, "cumulative", t, np.asarray(p.observations)[sl], _arr(p.cumulative_returns)[sl], idx=str(idx))
    if not comp:
        ctx.refused("log_needs_compounding", lambda: pop.plot_cumulative_returns(log_scale=True), (ValueError,))
    if k > 1:
        ms[0].compounded = not comp
        ctx.refused("mixed_compounding", lambda: Population(ms).plot_cumulative_returns(), (ValueError,))
        ms[0].compounded = comp
    name = str(rng.choice(SMOOTH))
    window = int(rng.integers(2, len(X) // 2))
    ctx.note(measure=name, window=window)
    with np.errstate(all="ignore"):
        series = [p.rolling_measure(measure=MEASURES[name], window=window) for p in ms]
        fig = pop.plot_rolling_measure(measure=MEASURES[name], window=window)
    ctx.equal("rolling_line_per_portfolio", len(fig.data), k)
    for t, p, s in zip(fig.data, ms, series):
        ctx.equal("rolling_name", t.name, p.name if p.tag is None else f"{p.name}_{p.tag}")
        _line(ctx, "rolling", t, p.observations, s)


@scenario("C40", quick=60, thorough=1000)
def scatter(ctx):
    rng = ctx.rng
    X = _table(rng)
    k = int(rng.integers(2, 12))
    ms = [(_multi if rng.random() < 0.2 else _portfolio)(rng, X, name=f"m{i}", tag=[None, "t1", "t2"][int(rng.integers(3))]) for i in range(k)]
    pop = Population(ms)
    a, b, c, h = (str(v) for v in rng.choice(SMOOTH, size=4, replace=False))
    fronts = bool(rng.random() < 0.3)
    three = bool(rng.random() < 0.4)
    color = None if rng.random() < 0.5 else (MEASURES[h] if rng.random() < 0.5 else "name")
    kw = {"x": MEASURES[a], "y": MEASURES[b], "show_fronts": fronts, "color_scale": color}
    if three:
        kw["z"] = MEASURES[c]
    if rng.random() < 0.5:
        kw["hover_measures"] = [MEASURES[h]]
    ctx.note(k=k, kw={q: str(v) for q, v in kw.items()})
    ctx.state("scatter", *[_arr(p.returns) for p in ms], str(kw))
    with np.errstate(all="ignore"):
        vals = {p.name: [getattr(p, a), getattr(p, b), getattr(p, c), getattr(p, h)] for p in ms}
        fig = pop.plot_measures(**kw)
    if not np.all(np.isfinite([v for v in vals.values()])):
        raise Skip
    seen = {}
    for t in fig.data:
        for i, nm in enumerate(t.hovertext):
            seen[str(nm)] = (t, i)
    ctx.equal("one_point_each", sorted(seen), sorted(vals))
    for p in ms:
        if p.name not in seen:
            continue
        t, i = seen[p.name]
        got = [float(t.x[i]), float(t.y[i])] + ([float(t.z[i])] if three else [])
        ctx.close("point", got, vals[p.name][: len(got)], rtol=1e-9, atol=1e-14, member=p.name)
        shown = [v for v in np.asarray(t.customdata, dtype=object)[i]]
        ctx.check("tag_shown", ("" if p.tag is None else p.tag) in [str(v) for v in shown], shown=shown, tag=p.tag)
        if "hover_measures" in kw:
            ctx.check("hover_value", any(isinstance(v, (float, np.floating)) and np.isclose(v, vals[p.name][3], rtol=1e-9) for v in shown), shown=shown, want=vals[p.name][3])
        if color is not None and not isinstance(color, str) and not fronts:
            ctx.close("colour_value", float(t.marker.color[i]), vals[p.name][3], rtol=1e-9, atol=1e-14)
    if fronts:
        levels = pop.non_denominated_sort()
        rank = {ms[i].name: f for f, front in enumerate(levels) for i in front}
        style = {}
        for p in ms:
            t, _ = seen[p.name]
            style.setdefault(rank[p.name], set()).add(t.marker.color)
        ctx.check("one_colour_per_front", all(len(s) == 1 for s in style.values()), style={q: list(s) for q, s in style.items()})
        if len(style) < 10:
            ctx.equal("fronts_told_apart", len(set().union(*style.values())), len(style))


@scenario("C40", quick=40, thorough=500)
def surface(ctx):
    rng = ctx.rng
    X = _table(rng)
    k = int(rng.integers(12, 30))
    ms = [_portfolio(rng, X, name=f"m{i}") for i in range(k)]
    pop = Population(ms)
    a, b, c = (str(v) for v in rng.choice(SMOOTH, size=3, replace=False))
    with np.errstate(all="ignore"):
        v = np.array([[getattr(p, q) for q in (a, b, c)] for p in ms])
    ctx.note(x=a, y=b, z=c)
    ctx.state("surface", v, a, b, c)
    s = v[:, :2] - v[:, :2].mean(axis=0)
    if not np.all(np.isfinite(v)) or np.any(v.std(axis=0) < 1e-12):
        raise Skip
    s = s / s.std(axis=0)
    # points on a line span no surface
    if np.linalg.svd(s, compute_uv=False)[1] < 0.1 or len(np.unique(np.round(s, 6), axis=0)) < k:
        raise Skip
    u = np.abs(v).max(axis=0)
    if u[0] / u[1] > 1e3 or u[1] / u[0] > 1e3:
        raise Skip
    fig = pop.plot_measures(x=MEASURES[a], y=MEASURES[b], z=MEASURES[c], to_surface=True)
    ctx.equal("one_surface", len(fig.data), 1)
    t = fig.data[0]
    ctx.close("x_range", [np.min(_arr(t.x)), np.max(_arr(t.x))], [v[:, 0].min(), v[:, 0].max()], rtol=1e-9)
    ctx.close("y_range", [np.min(_arr(t.y)), np.max(_arr(t.y))], [v[:, 1].min(), v[:, 1].max()], rtol=1e-9)
    z = _arr(t.z)
    ctx.equal("grid", z.shape, (len(t.y), len(t.x)))
    ctx.check("surface_drawn", np.isfinite(z).any())
    ctx.check("axis_named", str(MEASURES[c]) in str(fig.layout.scene.zaxis.title.text) and str(MEASURES[a]) in str(fig.layout.scene.xaxis.title.text), layout=str(fig.layout.scene)[:300])


@scenario("C40", quick=60, thorough=800)
def histogram(ctx):
    rng = ctx.rng
    X = _table(rng)
    k = int(rng.integers(3, 15))
    ms = [_portfolio(rng, X, name=f"m{i}", tag=str(rng.choice(["t1", "t2", "t3"], p=[0.5, 0.3, 0.2]))) for i in range(k)]
    pop = Population(ms)
    measures = [str(v) for v in rng.choice(SMOOTH, size=int(rng.integers(1, 4)), replace=False)]
    tags = sorted({p.tag for p in ms}) if rng.random() < 0.6 else None
    ctx.note(tags=[p.tag for p in ms], measures=measures, tag_list=tags)
    with np.errstate(all="ignore"):
        vals = {m: [getattr(p, m) for p in ms] for m in measures}
    if not np.all(np.isfinite(list(vals.values()))):
        raise Skip
    ctx.state("histogram", np.array(list(vals.values())), str(tags))
    fig = pop.plot_distribution(measure_list=[MEASURES[m] for m in measures], tag_list=tags, n_bins=int(rng.integers(3, 20)))
    hist = [t for t in fig.data if t.type == "histogram"]
    groups = []
    for m in measures:
        for tag in tags or [None]:
            groups.append(np.sort([getattr(p, m) for p in ms if tag is None or p.tag == tag]))
    ctx.equal("one_histogram_each", len(hist), len(groups))
    for t, g in zip(hist, groups):
        got = _arr(t.x if t.x is not None else t.y)
        got = np.sort(got[np.isfinite(got)])
        ctx.close("shown_values", got, g, rtol=1e-9, atol=1e-14, label=t.name)


@scenario("C40", quick=60, thorough=800)
def split_tables(ctx):
    rng = ctx.rng
    n_folds = int(rng.integers(3, 8))
    n_test = int(rng.integers(2, n_folds))
    purge, embargo = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    n = int(rng.integers(n_folds * 8, n_folds * 14))
    X = np.zeros((n, 2))
    cv = CombinatorialPurgedCV(n_folds=n_folds, n_test_folds=n_test, purged_size=purge, embargo_size=embargo)
    ctx.note(n_folds=n_folds, n_test=n_test, purge=purge, embargo=embargo, n=n)
    ctx.state("tables", n_folds, n_test, purge, embargo, n)
    splits = list(cv.split(X))
    fig = cv.plot_train_test_folds()
    cells, head = fig.data[0].cells, fig.data[0].header
    ctx.equal("fold_columns", len(cells.values), n_folds + 1)
    ctx.equal("fold_header", len(head.values), n_folds + 1)
    bounds = np.array_split(np.arange(n), n_folds)
    sizes = n // n_folds
    for f in range(n_folds):
        col = [int(v) for v in cells.values[f + 1]]
        want = []
        for _, tests in splits:
            test = np.concatenate(tests)
            want.append(int(f * sizes + sizes // 2 in test))
        ctx.equal("fold_cells", col, want, fold=f)
        colors = list(cells.fill.color[f + 1])
        ctx.check("fold_colours", all((c == "red") == bool(v) for c, v in zip(colors, col)), colors=colors, col=col)
    fig = cv.plot_train_test_index(X)
    cells = fig.data[0].cells
    ctx.equal("index_columns", len(cells.values), len(splits) + 1)
    ctx.equal("index_rows", [int(v) for v in cells.values[0]], list(range(n)))
    for s, (train, tests) in enumerate(splits):
        want = np.full(n, -1)
        want[train] = 0
        want[np.concatenate(tests)] = 1
        ctx.equal("index_cells", [int(v) for v in cells.values[s + 1]], want.tolist(), split=s)
        cmap = {-1: "green", 0: "blue", 1: "red"}
        ctx.check("index_colours", [cmap[v] for v in want.tolist()] == list(cells.fill.color[s + 1]), split=s)


@scenario("C40", quick=20, thorough=200)
def nothing_to_show(ctx):
    """Measures that are zero everywhere are still drawn."""
    rng = ctx.rng
    n, m = gens.some(rng, 10, 30), gens.some(rng, 2, 5)
    X = gens.frame(rng, np.abs(gens.market(rng, n, m)) + 1e-4, index=gens.dates(rng, n))
    k = int(rng.integers(1, 4))
    from skfolio import Portfolio

    ms = [Portfolio(X=X, weights=rng.dirichlet(np.ones(m)), name=f"m{i}") for i in range(k)]
    pop = Population(ms)
    name = str(rng.choice(["max_drawdown", "average_drawdown", "semi_deviation_zero", "ulcer_index", "first_lower_partial_moment_zero"]))
    if name.endswith("_zero"):
        name = name[:-5]
        pop.set_portfolio_params(min_acceptable_return=0.0)
    window = int(rng.integers(2, n // 2))
    ctx.note(measure=name, window=window, k=k)
    ctx.state("zero", X.values, name, window)
    fig = pop.plot_rolling_measure(measure=MEASURES[name], window=window)
    for t, p in zip(fig.data, ms):
        ctx.close("zero_line", _arr(t.y)[window - 1 :], np.zeros(n - window + 1), atol=1e-12)
    fig = pop.plot_contribution(measure=MEASURES[name])
    _matches(ctx, "zero_contribution", fig, pop.contribution(measure=MEASURES[name]))
    fig = ms[0].plot_contribution(measure=MEASURES[name])
    _matches(ctx, "zero_portfolio_contribution", fig, ms[0].contribution(measure=MEASURES[name], to_df=True))
