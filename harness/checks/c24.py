"""C24: empirical and Black-Litterman priors."""

import numpy as np

import gens
from checks.c21 import cov, ew_cov, ledoit_wolf
from core import Skip, rule, scenario

from skfolio.moments import EWCovariance, EWMu, EmpiricalCovariance, EmpiricalMu, EquilibriumMu, LedoitWolf
from skfolio.prior import BlackLitterman, EmpiricalPrior

rule("C24", "one state per fitted (return table, moment estimators, horizon or view set)")


def _table(rng, m=None):
    m = int(m or gens.some(rng, 2, 8))
    A = gens.market(rng, int(rng.integers(m + 10, 120)), m, scale=float(rng.choice([0.01, 0.002, 0.05])))
    A = np.clip(A, -0.9, None)
    return gens.frame(rng, A), A


def _moments(rng):
    mk = str(rng.choice(["default", "emp", "ew", "window"]))
    ck = str(rng.choice(["default", "emp0", "ew", "lw"]))
    mu = {"default": None, "emp": EmpiricalMu(), "ew": EWMu(alpha=0.1), "window": EmpiricalMu(window_size=9)}[mk]
    cv = {"default": None, "emp0": EmpiricalCovariance(ddof=0), "ew": EWCovariance(alpha=0.03), "lw": LedoitWolf()}[ck]

    def ref(B):
        if mk == "ew":
            g = 0.9 ** np.arange(len(B) - 1, -1, -1.0)
            r = (g @ B) / g.sum()
        else:
            r = (B[-9:] if mk == "window" else B).mean(axis=0)
        S = {"default": lambda: cov(B), "emp0": lambda: cov(B, 0), "ew": lambda: ew_cov(B, 0.03), "lw": lambda: ledoit_wolf(B, False)}[ck]()
        return r, S

    return mu, cv, ref, mk + "/" + ck


@scenario("C24", quick=500, thorough=6000)
def empirical(ctx):
    rng = ctx.rng
    X, A = _table(rng)
    Z = X if rng.random() < 0.5 else A
    mu, cv, ref, label = _moments(rng)
    log = bool(rng.random() < 0.6)
    h = float(rng.choice([0.5, 1, 21, 252, 2.5])) if log else None
    if log and h == 252:
        h = 252 if A.std() < 0.02 else 21
    ctx.note(moments=label, log_normal=log, horizon=h, shape=A.shape)
    est = EmpiricalPrior(mu_estimator=mu, covariance_estimator=cv, is_log_normal=log, investment_horizon=h)
    model = est.fit(Z).prior_model_
    B = np.log1p(A) if log else A
    m0, S0 = ref(B)
    if log:
        mm = np.exp(m0 * h + 0.5 * h * np.diag(S0))
        S = np.outer(mm, mm) * np.expm1(h * S0)
    else:
        mm, S = m0, S0
    ctx.close("prior mean", model.mu, mm, 1e-7, 1e-11 * A.std())
    ctx.close("prior covariance", model.covariance, S, 1e-6, 1e-9 * float(np.diag(S).max()))
    ctx.close("prior returns", model.returns, A, 0, 0)
    ctx.check("no square root claimed", model.cholesky is None)
    ctx.close("fitted mean estimator", est.mu_estimator_.mu_, m0, 1e-7, 1e-11 * A.std())
    ctx.close("fitted covariance estimator", est.covariance_estimator_.covariance_, S0, 1e-6, 1e-9 * float(np.diag(S0).max()))
    if rng.random() < 0.2:
        ctx.refused("horizon without log-normal", lambda: EmpiricalPrior(investment_horizon=21).fit(Z), (ValueError,))
        ctx.refused("log-normal without horizon", lambda: EmpiricalPrior(is_log_normal=True).fit(Z), (ValueError,))
    ctx.state(A, label, h)


class _SeenMu(EmpiricalMu):
    def fit(self, X, y=None):
        self.seen_ = (np.asarray(X, float).copy(), None if y is None else np.asarray(y, float).copy())
        return super().fit(X)


class _SeenCov(EmpiricalCovariance):
    def fit(self, X, y=None):
        self.seen_ = (np.asarray(X, float).copy(), None if y is None else np.asarray(y, float).copy())
        return super().fit(X)


@scenario("C24", quick=60, thorough=600)
def moment_inputs(ctx):
    """The moment estimators receive the assets and the targets on the same (linear or logarithmic) footing."""
    rng = ctx.rng
    X, A = _table(rng)
    n = len(A)
    y = None if rng.random() < 0.2 else gens.market(rng, n, int(rng.integers(1, 4)))
    log = bool(rng.random() < 0.6)
    est = EmpiricalPrior(mu_estimator=_SeenMu(), covariance_estimator=_SeenCov(), is_log_normal=log, investment_horizon=5 if log else None)
    ctx.note(log_normal=log, targets=None if y is None else y.shape, shape=A.shape)
    est.fit(X, y) if y is not None else est.fit(X)
    f = np.log1p if log else (lambda v: v)
    for label, e in (("mean", est.mu_estimator_), ("covariance", est.covariance_estimator_)):
        sx, sy = e.seen_
        ctx.close(f"assets given to the {label}", sx, f(A), 1e-9, 1e-15)
        if y is None:
            ctx.check(f"no targets for the {label}", sy is None)
        else:
            ctx.check(f"targets given to the {label}", sy is not None and np.allclose(np.ravel(sy), np.ravel(f(y)), rtol=1e-9, atol=1e-15), got=sy)
    ctx.state(A, log, y if y is not None else 0)


def _views(rng, cols, groups):
    """Views as text with the picking row and value they mean."""
    m = len(cols)
    labels = {c: np.eye(m)[i] for i, c in enumerate(cols)}
    for g in groups or []:
        for lab in set(g):
            ix = [i for i in range(m) if g[i] == lab]
            labels[lab] = np.isin(np.arange(m), ix) / len(ix)
    pool = sorted(labels)
    out = []
    for _ in range(int(rng.integers(1, min(m, 5)))):
        q = float(np.round(rng.normal(0, 0.01), 5))
        k = str(rng.choice(["abs", "rel", "multi", "flip", "coef"]))
        a, b, c = (pool[i] for i in rng.permutation(len(pool))[:3]) if len(pool) > 2 else (pool[0], pool[1], pool[0])
        if k == "abs":
            out.append((f"{a} == {q:.5f}", labels[a], q))
        elif k == "rel":
            out.append((f"{a} - {b} == {q:.5f}", labels[a] - labels[b], q))
        elif k == "multi":
            out.append((f"{a} - 0.5*{b} - 0.5*{c} == {q:.5f}", labels[a] - 0.5 * labels[b] - 0.5 * labels[c], q))
        elif k == "flip":
            out.append((f"{q:.5f} == {a}", labels[a], q) if q >= 0 else (f"{a} == {q:.5f}", labels[a], q))
        else:
            out.append((f"2*{a} == {b} + {abs(q):.5f}", 2 * labels[a] - labels[b], abs(q)))
    return out


def _bl_case(rng):
    m = gens.some(rng, 3, 8)
    A = gens.market(rng, int(rng.integers(m + 10, 100)), m)
    cols = gens.names(rng, m, "letters")
    X = gens.frame(rng, A, cols)
    groups = None
    if rng.random() < 0.6:
        groups = [cols, [str(v) for v in rng.choice(["eq", "fi", "fx"], m)]]
        if rng.random() < 0.5:
            groups.append([str(v) for v in rng.choice(["US", "EU"], m)])
    vs = _views(rng, cols, groups)
    P = np.array([v[1] for v in vs])
    if np.linalg.matrix_rank(P) < len(P) or np.linalg.cond(P @ P.T) > 1e4:
        raise Skip("dependent views")
    return X, A, cols, groups, vs, P, np.array([v[2] for v in vs])


def _prior(rng):
    k = str(rng.choice(["default", "emp", "lw", "weights"]))
    est = {
        "default": None, "emp": EmpiricalPrior(), "lw": EmpiricalPrior(covariance_estimator=LedoitWolf()),
        "weights": EmpiricalPrior(mu_estimator=EquilibriumMu(risk_aversion=2.5)),
    }[k]

    def ref(A):
        S = ledoit_wolf(A, False) if k == "lw" else cov(A)
        w = np.full(A.shape[1], 1 / A.shape[1])
        return {"default": lambda: cov(A) @ w, "weights": lambda: 2.5 * cov(A) @ w}.get(k, lambda: A.mean(axis=0))(), S

    return est, ref, k


@scenario("C24", quick=900, thorough=9000)
def black_litterman(ctx):
    rng = ctx.rng
    X, A, cols, groups, vs, P, q = _bl_case(rng)
    est, ref, k = _prior(rng)
    tau = float(rng.choice([0.01, 0.05, 0.5, 1.0]))
    rf = float(rng.choice([0.0, 0.0003, 0.01]))
    conf = None if rng.random() < 0.5 else rng.choice([0.05, 0.25, 0.5, 0.9, 1.0], len(vs))
    g = groups
    if groups is not None:
        form = str(rng.choice(["list", "array", "dict"]))
        if form == "array":
            g = np.array(groups, dtype=object) if rng.random() < 0.5 else np.array(groups)
        elif form == "dict":
            order = rng.permutation(len(cols))
            g = {cols[i]: [lev[i] for lev in groups[1:]] for i in order}
    text = [v[0] for v in vs]
    ctx.note(views=text, groups=groups, confidences=conf, tau=tau, rf=rf, prior=k)
    kw = dict(prior_estimator=est, tau=tau, risk_free_rate=rf)
    bl = BlackLitterman(views=text, groups=g, view_confidences=conf if conf is None or rng.random() < 0.5 else conf.tolist(), **kw).fit(X)
    mu0, S = ref(A)
    c = np.full(len(q), 0.5) if conf is None else conf
    om = tau * (1 / c - 1) * np.einsum("ij,jk,ik->i", P, S, P)
    if np.all(c < 1):
        # precision form of the posterior
        T = np.linalg.inv(tau * S)
        M = np.linalg.inv(T + P.T @ np.diag(1 / om) @ P)
        mu = M @ (T @ mu0 + P.T @ (q / om))
        cv = S + M
    else:
        G = tau * S @ P.T @ np.linalg.inv(tau * P @ S @ P.T + np.diag(om))
        mu = mu0 + G @ (q - P @ mu0)
        cv = (1 + tau) * S - tau * G @ P @ S
    sc = np.sqrt(np.diag(S).max())
    # an equation and its negation are the same view
    sg = np.sign(np.sum(bl.picking_matrix_ * P, axis=1)) if bl.picking_matrix_.shape == P.shape else 1.0
    ctx.close("picking matrix", bl.picking_matrix_, np.reshape(sg, (-1, 1)) * P, 1e-10, 1e-12)
    ctx.close("view values", bl.views_, sg * q, 1e-10, 1e-12)
    ctx.close("posterior mean", bl.prior_model_.mu, mu + rf, 1e-6, 1e-8 * sc)
    ctx.close("posterior covariance", bl.prior_model_.covariance, cv, 1e-6, 1e-8 * sc**2)
    ctx.close("returns unchanged", bl.prior_model_.returns, A, 0, 0)
    if conf is not None and np.all(conf == 1):
        ctx.close("certain views are met", P @ (bl.prior_model_.mu - rf), q, 1e-6, 1e-8)
    order = rng.permutation(len(vs))
    b2 = BlackLitterman(views=[text[i] for i in order], groups=g, view_confidences=None if conf is None else conf[order], **kw).fit(X)
    ctx.close("order of views", b2.prior_model_.mu, bl.prior_model_.mu, 1e-8, 1e-10 * sc)
    ctx.close("order of views, covariance", b2.prior_model_.covariance, bl.prior_model_.covariance, 1e-8, 1e-10 * sc**2)
    ctx.state(A, tuple(text), tau, rf, k)


@scenario("C24", quick=300, thorough=3000)
def limits(ctx):
    """Certain views are met exactly; worthless views change nothing."""
    rng = ctx.rng
    X, A, cols, groups, vs, P, q = _bl_case(rng)
    est, ref, k = _prior(rng)
    mu0, S = ref(A)
    tau = float(rng.choice([0.02, 0.3]))
    rf = float(rng.choice([0.0, 0.001]))
    text = [v[0] for v in vs]
    ctx.note(views=text, groups=groups, tau=tau, prior=k)
    kw = dict(views=text, groups=groups, prior_estimator=est, tau=tau, risk_free_rate=rf)
    one = np.ones(len(q)) if rng.random() < 0.5 else [1] * len(q)
    zero = np.zeros(len(q)) if rng.random() < 0.5 else [0] * len(q)
    sure = BlackLitterman(view_confidences=one, **kw).fit(X).prior_model_
    void = BlackLitterman(view_confidences=zero, **kw).fit(X).prior_model_
    sc = np.sqrt(np.diag(S).max())
    ctx.close("certain views are met", P @ (sure.mu - rf), q, 1e-6, 1e-8)
    ctx.close("certain views leave no estimation variance", np.diag(P @ sure.covariance @ P.T), np.diag(P @ S @ P.T), 1e-6, 1e-10 * sc**2)
    ctx.close("worthless views leave the mean", void.mu - rf, mu0, 1e-6, 1e-8 * sc)
    ctx.close("worthless views leave the covariance", void.covariance, (1 + tau) * S, 1e-6, 1e-10 * sc**2)
    # a view equal to the prior expectation does not move the mean
    a = cols[0]
    own = BlackLitterman(views=[f"{a} == {mu0[0]:.15f}"] if mu0[0] >= 0 else [f"{a} == -{-mu0[0]:.15f}"], prior_estimator=est, tau=tau).fit(X).prior_model_
    ctx.close("view confirming the prior", own.mu, mu0, 1e-6, 1e-10)
    # confidence moves the view portfolio from the prior to the view
    lo, mid, hi = (
        BlackLitterman(views=[text[0]], groups=groups, prior_estimator=est, tau=tau, view_confidences=[c]).fit(X).prior_model_.mu
        for c in (0.2, 0.5, 0.8)
    )
    p0 = P[0] @ mu0
    for c, v in ((0.2, lo), (0.5, mid), (0.8, hi)):
        ctx.close("confidence interpolates the view", P[0] @ v, p0 + c * (q[0] - p0), 1e-6, 1e-9)
    if rng.random() < 0.4:
        B = lambda **k2: BlackLitterman(**{**kw, **k2}).fit(X)
        ctx.refused("inequality view", lambda: B(views=[f"{cols[0]} <= 0.01"]), (ValueError,))
        ctx.refused("an inequality among the views", lambda: B(views=[text[0], f"{cols[0]} >= 0.01"], view_confidences=None), (ValueError,))
        ctx.refused("unknown name", lambda: B(views=["nosuchname == 0.01"]))
        if len(q) > 1:
            bad = np.full(len(q), 0.5)
            bad[int(rng.integers(len(q)))] = float(rng.choice([1.01, -0.01, 7.0]))
            ctx.refused("one confidence out of range", lambda: B(view_confidences=bad), (ValueError,))
        ctx.refused("confidence above one", lambda: B(view_confidences=np.full(len(q), 1.01)), (ValueError,))
        ctx.refused("negative confidence", lambda: B(view_confidences=np.full(len(q), -0.01)), (ValueError,))
        ctx.refused("two-dimensional views", lambda: B(views=[text]), (ValueError,))
        ctx.refused("names needed", lambda: BlackLitterman(views=text).fit(A))
    ctx.state(A, tuple(text), tau, k)
