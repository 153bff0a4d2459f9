"""Mean-risk requests built around a known feasible allocation, with independent judges.

A case knows the request handed to the library (``kw``) and, separately, the numerical
facts behind it, so feasibility and objective values are recomputed without the library.
"""

from __future__ import annotations

import cvxpy as cp
import numpy as np
import pandas as pd

import gens
import refs

RISKS = [
    "mean_absolute_deviation",
    "first_lower_partial_moment",
    "variance",
    "standard_deviation",
    "semi_variance",
    "semi_deviation",
    "worst_realization",
    "cvar",
    "evar",
    "max_drawdown",
    "average_drawdown",
    "cdar",
    "edar",
    "ulcer_index",
    "gini_mean_difference",
]
NET = {"worst_realization", "cvar", "evar", "max_drawdown", "average_drawdown", "cdar", "edar", "ulcer_index"}
QUADRATIC = {"variance", "semi_variance"}
SLOW = {"evar", "edar", "gini_mean_difference"}


class Case:
    def __init__(self, rng, frame=None, n=None, m=None, drift=0.0):
        self.rng = rng
        n = n or int(rng.integers(30, 70))
        m = m or int(rng.integers(3, 7) if rng.random() < 0.85 else rng.choice([2, 8, 11, 14]))
        self.R = gens.market(rng, n, m)
        self.R = self.R + drift
        self.n, self.m = n, m
        self.frame = bool(rng.random() < 0.7) if frame is None else frame
        self.cols = gens.names(rng, m)
        self.X = gens.frame(rng, self.R, cols=self.cols) if self.frame else self.R
        self.y = None
        self.kw = {}
        self.mu = self.R.mean(axis=0)
        self.cov = np.cov(self.R, rowvar=False)
        self.lo = np.zeros(m)
        self.hi = np.ones(m)
        self.budget = (1.0, 1.0)
        self.tc = np.zeros(m)
        self.fee = np.zeros(m)
        self.prev = np.zeros(m)
        self.l1 = self.l2 = 0.0
        self.rf = 0.0
        self.mar = None
        self.flpm_rf = 0.0  # optimizers measure the first partial moment above the risk-free rate
        self.betas = dict(cvar=0.95, evar=0.95, cdar=0.95, edar=0.95)
        self.lin = []  # (a, b, is_equality): a @ w <= b or == b
        self.limits = {}  # scalar limits by name
        self.unc = None  # (k, root) of the expected-return uncertainty
        self.w0 = None
        self.short = False

    # -- inputs ----------------------------------------------------------------------
    def spell(self, v, fill=0.0):
        """One of the accepted spellings of a per-asset vector (dicts may omit fill values)."""
        v = np.asarray(v, float)
        rng = self.rng
        kinds = ["array", "list"]
        if self.frame:
            kinds += ["dict", "dict"]
        if np.all(v == v[0]):
            kinds += ["scalar", "scalar"]
        k = str(rng.choice(kinds))
        if k == "scalar":
            return float(v[0])
        if k == "list":
            return [float(x) for x in v]
        if k == "dict":
            items = [(c, float(x)) for c, x in zip(self.cols, v) if x != fill or rng.random() < 0.5]
            return dict(items[i] for i in rng.permutation(len(items)))
        return v.copy()

    # -- numerical facts ----------------------------------------------------------------
    def cost(self, w):
        return float(np.sum(self.tc * np.abs(self.prev - w)))

    def fees(self, w):
        return float(self.fee @ w)

    def ret(self, w):
        v = float(self.mu @ w) - self.cost(w) - self.fees(w)
        if self.unc is not None:
            v -= self.unc[0] * float(np.linalg.norm(self.unc[1] @ w))
        return v

    def risk(self, name, w):
        r = self.R @ w
        if name in NET:
            r = r - self.fees(w) - (0.0 if name == "evar" else self.cost(w))
        if name == "variance":
            return float(w @ self.cov @ w)
        if name == "standard_deviation":
            return float(np.sqrt(max(w @ self.cov @ w, 0)))
        mar = float(self.mu @ w) if self.mar is None else self.mar * w.sum()
        if name == "mean_absolute_deviation":
            return refs.mad(r)
        if name == "first_lower_partial_moment":
            return refs.flpm(r, mar + self.flpm_rf)
        if name == "semi_variance":
            return refs.semi_variance(r, mar)
        if name == "semi_deviation":
            return refs.semi_dev(r, mar)
        if name == "worst_realization":
            return refs.worst(r)
        if name == "cvar":
            return refs.cvar(r, self.betas["cvar"])
        if name == "evar":
            return refs.evar(r, self.betas["evar"])[0]
        if name == "gini_mean_difference":
            return refs.gmd(r)
        # allocations are judged from the initial wealth: a first loss is a drawdown
        c = np.cumsum(r)
        dd = c - np.maximum(np.maximum.accumulate(c), 0.0)
        if name == "max_drawdown":
            return float(np.max(-dd))
        if name == "average_drawdown":
            return float(np.mean(-dd))
        if name == "cdar":
            return refs.cvar(dd, self.betas["cdar"])
        if name == "edar":
            return refs.evar(dd, self.betas["edar"])[0]
        if name == "ulcer_index":
            return refs.ulcer(dd)
        raise KeyError(name)

    def reg(self, w):
        return self.l1 * float(np.abs(w).sum()) + self.l2 * float(w @ w)

    def violations(self, w, tol=1e-5):
        """[(constraint, excess)] for everything requested; excess above the tolerance."""
        out = []
        f = min(1.0, (tol / 1e-5) ** 2)  # share of the solver allowance on scalar limits

        def le(name, a, b, t=tol):
            e = float(np.max(np.asarray(a, float) - np.asarray(b, float)))
            if not e <= t:
                out.append((name, e))

        if self.lo is not None:
            le("minimum weights", self.lo, w)
        if self.hi is not None:
            le("maximum weights", w, self.hi)
        b0, b1 = self.budget
        if b0 is not None:
            le("minimum budget", b0, w.sum())
        if b1 is not None:
            le("maximum budget", w.sum(), b1)
        for i, (a, b, eq) in enumerate(self.lin):
            t = tol * max(1.0, float(np.abs(a).max()))
            le(f"linear {i}", a @ w, b, t)
            if eq:
                le(f"linear {i}", b, a @ w, t)
        L = self.limits
        if "max_long" in L:
            le("total long", np.maximum(w, 0).sum(), L["max_long"])
        if "max_short" in L:
            le("total short", np.maximum(-w, 0).sum(), L["max_short"])
        if "turnover" in L:
            le("turnover", np.abs(w - self.prev), L["turnover"])
        if "tracking" in L:
            yy = np.asarray(self.y, float).ravel()
            te = np.linalg.norm(self.R @ w - yy) / np.sqrt(self.n - 1)
            le("tracking error", te, L["tracking"], f * (1e-3 * L["tracking"] + 1e-6))
        if "min_return" in L:
            # the entropic measure is solved with constraints scaled down a hundredfold
            at = 5e-5 if str(getattr(self.kw.get("risk_measure"), "value", "")) == "evar" else 2e-6
            le("minimum return", L["min_return"], self.ret(w), f * (at + 1e-3 * abs(L["min_return"])))
        for name in RISKS:
            if name in L:
                v = self.risk(name, w)
                rt = 2e-2 if name in ("evar", "edar") else 2e-3
                at = 1e-6 if name not in QUADRATIC else 1e-7
                le(f"maximum {name}", v, L[name], f * (rt * L[name] + at))
        return out

    # -- independent convex formulation ------------------------------------------------
    def cvx_net(self, w, name):
        r = self.R @ w
        if name in NET:
            r = r - self.fee @ w
            if name != "evar" and np.any(self.tc):
                r = r - self.tc @ cp.abs(self.prev - w)
        return r

    def cvx_ret(self, w):
        e = self.mu @ w - self.fee @ w
        if np.any(self.tc):
            e = e - self.tc @ cp.abs(self.prev - w)
        if self.unc is not None:
            e = e - self.unc[0] * cp.norm(self.unc[1] @ w)
        return e

    def cvx_risk(self, name, w):
        """(expression, constraints)"""
        n = self.n
        r = self.cvx_net(w, name)
        mar = self.mu @ w if self.mar is None else self.mar * cp.sum(w)
        if name in ("variance", "standard_deviation"):
            v, Q = np.linalg.eigh(self.cov)
            root = (Q * np.sqrt(np.maximum(v, 0))).T
            e = cp.norm(root @ w)
            return (cp.sum_squares(root @ w) if name == "variance" else e), []
        if name == "mean_absolute_deviation":
            return cp.sum(cp.abs((self.R - self.R.mean(axis=0)) @ w)) / n, []
        if name == "first_lower_partial_moment":
            return cp.sum(cp.pos(self.flpm_rf + mar - r)) / n, []
        if name == "semi_variance":
            return cp.sum_squares(cp.pos(mar - r)) / (n - 1), []
        if name == "semi_deviation":
            return cp.norm(cp.pos(mar - r)) / np.sqrt(n - 1), []
        if name == "worst_realization":
            return cp.max(-r), []
        if name == "cvar":
            a = cp.Variable()
            return a + cp.sum(cp.pos(-r - a)) / (n * (1 - self.betas["cvar"])), []
        if name == "gini_mean_difference":
            i, j = np.triu_indices(n, 1)
            return 2 * cp.sum(cp.abs((self.R[i] - self.R[j]) @ w)) / (n * (n - 1)), []
        if name == "evar":
            x, t, z = cp.Variable(), cp.Variable(nonneg=True), cp.Variable(n)
            return x + t * np.log(1 / (n * (1 - self.betas["evar"]))), [cp.sum(z) <= t, cp.ExpCone(-r - x, t * np.ones(n), z)]
        # peak minus wealth, with the starting wealth as the first peak
        u = cp.Variable(n, nonneg=True)
        wealth = cp.cumsum(r)
        cons = [u >= wealth, u[1:] >= u[:-1]]
        d = u - wealth
        if np.any(self.tc):
            # keep the program convex: d is an upper bound of the true drawdown
            d = cp.Variable(n, nonneg=True)
            cons = [d[0] >= -r[0], d[1:] >= d[:-1] - r[1:]]
        if name == "max_drawdown":
            return cp.max(d), cons
        if name == "average_drawdown":
            return cp.sum(d) / n, cons
        if name == "ulcer_index":
            return cp.norm(d) / np.sqrt(n), cons
        if name == "cdar":
            a = cp.Variable()
            return a + cp.sum(cp.pos(d - a)) / (n * (1 - self.betas["cdar"])), cons
        if name == "edar":
            x, t, z = cp.Variable(), cp.Variable(nonneg=True), cp.Variable(n)
            return x + t * np.log(1 / (n * (1 - self.betas["edar"]))), [*cons, cp.sum(z) <= t, cp.ExpCone(d - x, t * np.ones(n), z)]
        raise KeyError(name)

    def cvx_feasible(self, w):
        cons = []
        if self.lo is not None:
            cons.append(w >= self.lo)
        if self.hi is not None:
            cons.append(w <= self.hi)
        b0, b1 = self.budget
        if b0 is not None and b0 == b1:
            cons.append(cp.sum(w) == b0)
        else:
            if b0 is not None:
                cons.append(cp.sum(w) >= b0)
            if b1 is not None:
                cons.append(cp.sum(w) <= b1)
        for a, b, eq in self.lin:
            cons.append(a @ w == b if eq else a @ w <= b)
        L = self.limits
        if "max_long" in L:
            cons.append(cp.sum(cp.pos(w)) <= L["max_long"])
        if "max_short" in L:
            cons.append(cp.sum(cp.pos(-w)) <= L["max_short"])
        if "turnover" in L:
            cons.append(cp.abs(w - self.prev) <= L["turnover"])
        if "tracking" in L:
            yy = np.asarray(self.y, float).ravel()
            cons.append(cp.norm(self.R @ w - yy) <= L["tracking"] * np.sqrt(self.n - 1))
        if "min_return" in L:
            cons.append(self.cvx_ret(w) >= L["min_return"])
        for name in RISKS:
            if name in L:
                e, c = self.cvx_risk(name, w)
                cons += [*c, e <= L[name]]
        return cons

    def solve(self, sense, build):
        """Value and weights of an independent program over the feasible set."""
        w = cp.Variable(self.m)
        e, c = build(w)
        p = cp.Problem(cp.Minimize(e) if sense == "min" else cp.Maximize(e), self.cvx_feasible(w) + c)
        p.solve(solver="CLARABEL")
        if p.status not in ("optimal", "optimal_inaccurate") or w.value is None:
            return None, None
        return float(p.value), np.asarray(w.value)

    # -- random requests -----------------------------------------------------------------
    def bounds(self, shorts=None):
        rng, m = self.rng, self.m
        kind = str(rng.choice(["default", "box", "short", "short", "fixed", "none"]))
        if shorts is False and kind in ("short", "none"):
            kind = "box"
        if kind == "box":
            self.lo = np.round(rng.uniform(0, 0.6 / m, m) * (rng.random(m) < 0.6), 3)
            self.hi = np.round(np.minimum(1, rng.uniform(1.3 / m, 0.9, m)), 3)
        elif kind == "short":
            self.lo = -np.round(rng.uniform(0, 0.5, m), 2)
            self.hi = np.round(rng.uniform(0.4, 1.2, m), 2)
            self.short = True
        elif kind == "fixed":
            self.lo = np.full(m, round(0.5 / m, 3))
            self.hi = np.full(m, round(min(1.0, 2.0 / m), 3))
        elif kind == "none":
            self.lo = np.full(m, -1.0)
            self.hi = None
            self.short = True
        if kind != "default":
            self.kw["min_weights"] = self.spell(self.lo, 0.0)
            self.kw["max_weights"] = None if self.hi is None else self.spell(self.hi, 1.0)
        self.kind = kind
        return kind

    def budgets(self):
        rng = self.rng
        kind = str(rng.choice(["default", "default", "value", "range", "zero"]))
        if kind == "zero" and not self.short:
            kind = "value"
        if kind == "value":
            b = float(rng.choice([0.6, 0.9, 1.0]))
            self.budget = (b, b)
            self.kw["budget"] = b
        elif kind == "range":
            self.budget = (float(rng.choice([0.2, 0.5])), float(rng.choice([0.8, 1.0])))
            self.kw.update(budget=None, min_budget=self.budget[0], max_budget=self.budget[1])
            if rng.random() < 0.3:
                self.kw["min_budget"] = None
                self.budget = (None, self.budget[1])
        elif kind == "zero":
            self.budget = (0.0, 0.0)
            self.kw["budget"] = 0
        return kind

    def interior(self):
        """A feasible allocation for bounds and budget, away from the bounds when possible."""
        rng, m = self.rng, self.m
        lo = self.lo if self.lo is not None else np.full(m, -1.0)
        hi = self.hi if self.hi is not None else np.full(m, 1.5)
        b0 = self.budget[0] if self.budget[0] is not None else max(0.3, lo.sum() + 0.05)
        b1 = self.budget[1] if self.budget[1] is not None else b0 + 0.3
        target = float(np.clip(rng.uniform(b0, b1), lo.sum(), hi.sum()))
        if not (b0 - 1e-12 <= target <= b1 + 1e-12):
            return None
        # random point of the box moved along the segment to a corner until the sum fits
        u = lo + (hi - lo) * rng.uniform(0.15, 0.85, m)
        if u.sum() < target:
            t = (target - u.sum()) / (hi.sum() - u.sum())
            u = u + t * (hi - u)
        elif u.sum() > target:
            t = (u.sum() - target) / (u.sum() - lo.sum())
            u = u + t * (lo - u)
        self.w0 = u
        return u

    def costs(self, p=0.5):
        rng, m = self.rng, self.m
        if rng.random() < p:
            self.tc = np.round(rng.uniform(0, 0.004, m) * (rng.random(m) < 0.8), 5) if rng.random() < 0.6 else np.full(m, float(rng.choice([0.0005, 0.002])))
            self.kw["transaction_costs"] = self.spell(self.tc)
        if rng.random() < p:
            self.fee = np.round(rng.uniform(0, 0.0006, m) * (rng.random(m) < 0.8), 6) if rng.random() < 0.6 else np.full(m, 0.0001)
            self.kw["management_fees"] = self.spell(self.fee)
        if rng.random() < 0.6:
            self.prev = np.round(rng.dirichlet(np.ones(m)), 3) * (rng.random(m) < 0.8) if rng.random() < 0.7 else np.full(m, round(1 / m, 4))
            self.kw["previous_weights"] = self.spell(self.prev)

    def linear(self, p=0.5):
        """Equations on assets or groups, all satisfied by w0 (equalities exactly)."""
        rng, m = self.rng, self.m
        if rng.random() > p:
            return
        members = {c: np.eye(m)[i] for i, c in enumerate(self.cols)}
        by_groups = rng.random() < 0.6 or not self.frame
        if by_groups:
            g1 = [f"G{int(k)}" for k in rng.integers(0, 3, m)]
            g2 = [f"H{int(k)}" for k in rng.integers(0, 2, m)]
            if self.frame and rng.random() < 0.6:
                self.kw["groups"] = {c: [a, b] for c, a, b in zip(self.cols, g1, g2)}
            else:
                self.kw["groups"] = [list(self.cols), g1, g2] if rng.random() < 0.5 else [g1, g2]
                if len(self.kw["groups"]) == 2:
                    members = {}
            for lev in (g1, g2):
                for k in set(lev):
                    members[k] = np.array([x == k for x in lev], float)
        keys = sorted(members)
        eqs = []
        n_eq = 0
        for _ in range(int(rng.integers(1, 4))):
            pick = [keys[i] for i in rng.permutation(len(keys))[: int(rng.integers(1, 4))]]
            coef = [float(rng.choice([1, 1, 1, 2, 0.5, -1, -0.25])) for _ in pick]
            a = sum(k * members[g] for k, g in zip(coef, pick))
            v = float(a @ self.w0)
            op = str(rng.choice(["<=", ">=", "<=", ">=", "=="]))
            if op == "==" and (n_eq or np.linalg.matrix_rank(np.vstack([a, np.ones(m)])) < 2 or not np.any(a)):
                op = "<="
            slack = float(rng.uniform(0.005, 0.08))
            if op == "==":
                n_eq += 1
                # a homogeneous equality keeps its exact value: v is moved to the right
                text = self._terms(coef, pick) + f" {rng.choice(['==', '='])} " + _num(v)
                self.lin.append((a, float(_num(v)), True))
            elif op == "<=":
                b = float(_num(v + slack))
                text = self._terms(coef, pick) + " <= " + _num(b)
                self.lin.append((a, b, False))
            else:
                b = float(_num(v - slack))
                text = self._terms(coef, pick) + " >= " + _num(b)
                self.lin.append((-a, -b, False))
            eqs.append(text)
        self.kw["linear_constraints"] = eqs if rng.random() < 0.7 else np.array(eqs)

    def _terms(self, coef, pick):
        rng = self.rng
        out = ""
        for i, (k, g) in enumerate(zip(coef, pick)):
            sign = "-" if k < 0 else "+" if i else ""
            k = abs(k)
            if k == 1 and rng.random() < 0.8:
                t = g
            elif rng.random() < 0.5:
                t = f"{_num(k)}*{g}"
            else:
                t = f"{g} * {_num(k)}"
            out += f" {sign} {t}" if i else f"{sign}{t}"
        return out

    def matrix(self, p=0.3):
        rng, m = self.rng, self.m
        if rng.random() > p:
            return
        A = np.round(rng.normal(size=(int(rng.integers(1, 3)), m)), 2)
        b = A @ self.w0 + rng.uniform(0.005, 0.1, len(A))
        self.kw["left_inequality"] = A.tolist() if rng.random() < 0.5 else A
        self.kw["right_inequality"] = b.tolist() if rng.random() < 0.5 else b
        self.lin += [(a, float(v), False) for a, v in zip(A, b)]

    def totals(self, p=0.4):
        rng, w0 = self.rng, self.w0
        if rng.random() < p:
            v = float(np.maximum(w0, 0).sum() + rng.uniform(0.01, 0.1))
            self.limits["max_long"] = self.kw["max_long"] = v
        if rng.random() < p and (self.short or self.lo is None or np.any(self.lo < 0)):
            v = float(np.maximum(-w0, 0).sum() + rng.uniform(0.01, 0.1))
            self.limits["max_short"] = self.kw["max_short"] = v

    def turnover(self, p=0.3):
        rng = self.rng
        if rng.random() < p:
            self.prev = np.round(self.w0 + rng.uniform(-0.15, 0.15, self.m), 4) if rng.random() < 0.75 else np.full(self.m, round(1 / self.m, 4))
            self.kw["previous_weights"] = self.spell(self.prev)
            v = float(np.max(np.abs(self.w0 - self.prev)) + rng.uniform(0.005, 0.05))
            self.limits["turnover"] = self.kw["max_turnover"] = v

    def tracking(self, p=0.3):
        rng = self.rng
        if rng.random() < p:
            b = rng.dirichlet(np.ones(self.m))
            self.y = self.R @ b + rng.normal(0, 0.002, self.n)
            te = np.linalg.norm(self.R @ self.w0 - self.y) / np.sqrt(self.n - 1)
            v = float(te * rng.uniform(1.02, 1.2))
            self.limits["tracking"] = self.kw["max_tracking_error"] = v
            if self.frame:
                s = pd.Series(self.y, index=self.X.index, name="bench")
                self.y = s if rng.random() < 0.5 else s.to_frame()

    def ceilings(self, p=0.4, names=RISKS, k=2):
        rng = self.rng
        if rng.random() < p:
            for name in [names[i] for i in rng.permutation(len(names))[: int(rng.integers(1, k + 1))]]:
                if name == "gini_mean_difference" and np.any(self.tc):
                    continue
                v = self.risk(name, self.w0)
                if v <= 1e-5 and name not in QUADRATIC:
                    continue
                v = float(v * rng.uniform(1.02, 1.15))
                self.limits[name] = self.kw[f"max_{name}"] = v

    def min_return(self, p=0.3):
        if self.rng.random() < p:
            v = self.ret(self.w0)
            v = float(v - abs(v) * self.rng.uniform(0.01, 0.1) - 1e-6)
            self.limits["min_return"] = self.kw["min_return"] = v

    def set_betas(self):
        for k in self.betas:
            if self.rng.random() < 0.4:
                self.betas[k] = float(self.rng.choice([0.5, 0.8, 0.9, 0.97]))
                self.kw[f"{k}_beta"] = self.betas[k]


def _num(v):
    s = f"{v:.6f}"
    return s.rstrip("0").rstrip(".") if "." in s else s
