"""C31: linear equations as text against direct evaluation of their syntax tree."""

import warnings

import numpy as np

import gens
from core import Skip, rule, scenario

from skfolio.exceptions import DuplicateGroupsError, EquationToMatrixError, GroupNotFoundError
from skfolio.utils.equations import equations_to_matrix, group_cardinalities_to_matrix

rule("C31", "one state per translated equation list with its group table")

NAMES = ["a", "b", "AAPL", "BRK.B", "asset 1", "asset 11", "T_10", "US", "USA", "3M", "x", "Equity", "Émergents", "e", "E5", "BTC/USD", "S&P 500"]
LEVELS = [["Bond", "Stock", "Cash"], ["North", "South", "East side"], ["g1", "g2", "g11"]]


def _groups(rng):
    m = gens.some(rng, 1, 8)
    pool = NAMES + [f"N{i}" for i in range(m)]
    rows = [[pool[i] for i in rng.permutation(len(NAMES) if m <= len(NAMES) else len(pool))[:m]]] if rng.random() < 0.8 else []
    for lv in LEVELS[: int(rng.integers(0 if rows else 1, 4))]:
        rows.append([str(v) for v in rng.choice(lv, m)])
    return np.array(rows), m


def _number(rng):
    v = round(float(rng.choice([0.1, 0.25, 0.5, 1, 1.5, 2, 3, 10, 0.003])) * float(rng.choice([1, 1, 3])), 4)
    k = int(rng.integers(4))
    if k == 0 and v == int(v):
        return v, str(int(v))
    if k == 1 and v < 1:
        return v, f"{v:g}"[1:] if f"{v:g}".startswith("0.") else f"{v:g}"
    if k == 2:
        return v, f"{v:.5f}"
    return v, f"{v:g}"


def _side(rng, names, allow_const=True):
    """A list of (sign, coefficient, name or None, text)."""
    out = []
    for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.99 else int(rng.integers(8, 40))):
        sg = int(rng.choice([1, 1, -1]))
        k = str(rng.choice(["name", "name", "ng", "gn", "const"]))
        if k == "const":
            v, t = _number(rng)
            out.append((sg, v, None, t))
            continue
        g = str(names[int(rng.integers(len(names)))])
        if k == "name":
            out.append((sg, 1.0, g, g))
        else:
            v, t = _number(rng)
            sp = str(rng.choice(["", " ", "  "]))
            sp2 = str(rng.choice(["", " ", "  "]))
            out.append((sg, v, g, f"{t}{sp}*{sp2}{g}" if k == "ng" else f"{g}{sp}*{sp2}{t}"))
    return out


def _print(rng, side):
    s = ""
    for i, (sg, _, _, t) in enumerate(side):
        sp = str(rng.choice(["", " ", "  "]))
        if i == 0:
            s += ("-" + sp if sg < 0 else ("+" + sp if rng.random() < 0.15 else "")) + t
        else:
            s += str(rng.choice(["", " "])) + ("-" if sg < 0 else "+") + sp + t
    return s


def _value(side, w, groups, mean):
    tot = 0.0
    for sg, c, g, _ in side:
        if g is None:
            tot += sg * c
        else:
            sel = (groups == g).any(axis=0)
            tot += sg * c * (w[sel].mean() if mean else w[sel].sum())
    return tot


@scenario("C31", quick=1500, thorough=15000)
def equations(ctx):
    rng = ctx.rng
    groups, m = _groups(rng)
    names = sorted(set(groups.ravel().tolist()))
    mean = bool(rng.random() < 0.4)
    eqs = []
    for _ in range(int(rng.integers(1, 6))):
        L, R = _side(rng, names), _side(rng, names)
        if all(t[2] is None for t in L + R):
            continue
        op = str(rng.choice(["<=", ">=", "==", "="]))
        pad = str(rng.choice(["", " "]))
        eqs.append((pad + _print(rng, L) + str(rng.choice(["", " ", "  "])) + op + str(rng.choice(["", " ", "  "])) + _print(rng, R) + pad, L, op, R))
    if not eqs:
        raise Skip("constants only")
    text = [e[0] for e in eqs]
    ctx.note(groups=groups.tolist(), equations=text, mean=mean)
    form = groups if rng.random() < 0.6 else groups.tolist()
    kw = dict(sum_to_one=True) if mean else ({} if rng.random() < 0.5 else dict(sum_to_one=False))
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        a_eq, b_eq, a_in, b_in = equations_to_matrix(form, text if rng.random() < 0.6 else np.array(text), **kw)
    neq = sum(e[2] in ("==", "=") for e in eqs)
    ctx.equal("equalities", (len(a_eq), len(b_eq)), (neq, neq))
    ctx.equal("inequalities", (len(a_in), len(b_in)), (len(eqs) - neq,) * 2)
    ie = ii = 0
    W = [rng.normal(size=m) for _ in range(m + 2)] + [np.zeros(m)]
    for t, L, op, R in eqs:
        if op in ("==", "="):
            a, b = a_eq[ie], b_eq[ie]
            ie += 1
        else:
            a, b = a_in[ii], b_in[ii]
            ii += 1
        f = np.array([_value(L, w, groups, mean) - _value(R, w, groups, mean) for w in W])
        if op == ">=":
            f = -f
        g = np.array([a @ w - b for w in W])
        if op in ("==", "=") and f @ g < 0:
            g = -g
        ctx.close("equality meaning" if op in ("==", "=") else "inequality meaning", g, f, 1e-9, 1e-9, equation=t)
    ctx.state(tuple(text), groups.tolist(), mean)


BAD = [
    "{a}", "{a} + {b}", "{a} < 0.5", "{a} > 0.5", "{a} <= ", "{a} <= 0.5 +", "{a} + <= 0.5", "* {a} <= 0.5", "{a} <= * 2",
    "{a} <= 0.5 <= {b}", "{a} == {b} == 0.1", "{a} <= {b} >= 0.1", "{a} = {b} = 0.2", "2 * 3 <= {a}", "{a} <= 2 * 3", "2 * nosuch <= 1", "{a} <= 0.5 * nosuch",
    "{a} =< 0.5", "{a} => 0.5", "{a} <= + + 2", "{a} - - {b} <= 1", "{a} >= - ", "0.5 * * {a} <= 1", "{a} * {b} * <= 1", "",
    "{a} <> 0.5", "{a} <= 0.5 < {b}",
]


@scenario("C31", quick=400, thorough=3000)
def malformed(ctx):
    rng = ctx.rng
    groups, m = _groups(rng)
    names = sorted(set(groups.ravel().tolist()))
    a, b = str(names[0]), str(names[-1])
    pat = BAD[ctx.index % len(BAD)].replace("{a}", a).replace("{b}", b)
    ctx.note(equation=pat, groups=groups.tolist())
    good = f"{a} <= 0.5"
    ctx.refused("malformed equation", lambda: equations_to_matrix(groups, [good, pat], raise_if_group_missing=True), equation=pat)
    if "* {b} *" not in BAD[ctx.index % len(BAD)] and "* *" not in BAD[ctx.index % len(BAD)]:
        # whatever the option for missing groups
        ctx.refused("malformed equation without the missing-group option", lambda: equations_to_matrix(groups, [good, pat]), equation=pat)
    # unknown names
    unk = str(rng.choice(["nosuch <= 0.5", "{a} <= nosuch", "{a} + nosuch == 1", "{a} >= 2*{a} - nosuch"])).replace("{a}", a)
    ctx.refused("unknown name", lambda: equations_to_matrix(groups, [unk], raise_if_group_missing=True), (GroupNotFoundError,), equation=unk)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        a_eq, b_eq, a_in, b_in = equations_to_matrix(groups, [unk, good])
    ctx.check("unknown name warned about", any("nosuch" in str(r.message) for r in rec), equation=unk)
    ctx.equal("equation with the unknown name ignored", (len(a_eq), len(a_in)), (0, 1))
    if len(a_in) == 1:
        ctx.close("other equations kept", np.append(a_in[0], b_in[0]), np.append((groups == a).any(axis=0), 0.5))
    # group tables
    if len(groups) > 0:
        dup = np.vstack([groups, np.full(m, names[0])])
        ctx.refused("name in two levels", lambda: equations_to_matrix(dup, [good]), (DuplicateGroupsError,))
        ctx.refused("one-dimensional groups", lambda: equations_to_matrix(groups[0], [good]), (ValueError,))
        ctx.refused("two-dimensional equations", lambda: equations_to_matrix(groups, [[good]]), (ValueError,))
    ctx.state(pat, unk, groups.tolist())


@scenario("C31", quick=300, thorough=2500)
def cardinalities(ctx):
    rng = ctx.rng
    groups, m = _groups(rng)
    names = sorted(set(groups.ravel().tolist()))
    pick = [names[i] for i in rng.permutation(len(names))[: int(rng.integers(1, len(names) + 1))]]
    lim = {str(g): int(rng.integers(0, m + 1)) for g in pick}
    ctx.note(groups=groups.tolist(), limits=lim)
    A, b = group_cardinalities_to_matrix(groups, lim)
    ctx.equal("one row per limit", (len(A), len(b)), (len(lim), len(lim)))
    for row, v, (g, k) in zip(A, b, lim.items()):
        ctx.equal("assets counted", row.astype(float), np.array([float(g in groups[:, j]) for j in range(m)]), group=g)
        ctx.equal("limit", float(v), float(k))
    ctx.refused("unknown group", lambda: group_cardinalities_to_matrix(groups, {"nosuch": 1}, raise_if_group_missing=True))
    more = list(lim.items())
    more.insert(int(rng.integers(len(more) + 1)), ("nosuch", 1))
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        A2, b2 = group_cardinalities_to_matrix(groups, dict(more))
    ctx.check("unknown group is left out with a warning", len(seen) > 0 and np.array_equal(A2, A) and np.array_equal(b2, b))
    ctx.state(groups.tolist(), sorted(lim.items()))
