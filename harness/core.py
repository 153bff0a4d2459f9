"""Monitor runtime: scenarios, oracles, counters, three-valued verdicts.

A *scenario* generates one workload item from a seeded generator, drives the real
library through its public API and evaluates *monitors* (named oracles) on what it
observed.  Every monitor evaluation is counted.  A violation carries the scenario
name and the item index, which together with VERIF_SEED replay it exactly.
"""

from __future__ import annotations

import contextlib
import hashlib
import os
import traceback
import warnings
import zlib

import numpy as np

SCENARIOS: dict[str, dict[str, "Scenario"]] = {}
RULES: dict[str, str] = {}


class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.weight = weight


def scenario(prop, quick, thorough=None, weight=1):
    """Register a scenario with the number of items per tier."""

    def deco(fn):
        SCENARIOS.setdefault(prop, {})[fn.__name__] = Scenario(
            prop, fn.__name__, fn, quick, thorough or quick * 12, weight
        )
        return fn

    return deco


def rule(prop, text):
    RULES[prop] = text


class Skip(Exception):
    """The generated item is not usable (for instance infeasible on purpose)."""


class Reject(Exception):
    """Internal: stop the item after a fatal monitor failure."""


def _short(v, depth=0):
    try:
        if isinstance(v, np.ndarray):
            if v.size <= 24:
                return np.array2string(v, precision=10, threshold=50)
            return f"array{v.shape} head={np.array2string(v.ravel()[:8], precision=8)}"
        s = repr(v)
        return s if len(s) < 600 else s[:600] + "..."
    except Exception:  # pragma: no cover
        return f"<{type(v).__name__}>"


class Ctx:
    def __init__(self, prop, scen, index, seed):
        self.prop = prop
        self.scen = scen
        self.index = index
        self.seed = seed
        self.rng = np.random.default_rng(
            [int(seed) & 0x7FFFFFFF, zlib.crc32(f"{prop}/{scen}".encode()), int(index)]
        )
        self.evals: dict[str, int] = {}
        self.sigs: set[str] = set()
        self.violations: list[dict] = []
        self.notes: dict[str, object] = {}
        self.sample: dict[str, str] | None = None
        self.skipped: str | None = None

    # -- recording -------------------------------------------------------------
    def note(self, **kw):
        """Describe the generated case (shown in evidence samples and witnesses)."""
        self.notes.update(kw)

    def state(self, *parts):
        """Register a distinct non-trivial observed state."""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(np.round(p.astype(float), 12)).tobytes())
            else:
                h.update(repr(p).encode())
        self.sigs.add(h.hexdigest())

    def _fail(self, name, detail):
        self.violations.append(
            dict(
                monitor=name,
                scenario=self.scen,
                index=self.index,
                detail={k: _short(v) for k, v in detail.items()},
                case={k: _short(v) for k, v in self.notes.items()},
            )
        )

    # -- monitors --------------------------------------------------------------
    def check(self, name, ok, **detail):
        self.evals[name] = self.evals.get(name, 0) + 1
        if not bool(ok):
            self._fail(name, detail)
            return False
        return True

    def require(self, name, ok, **detail):
        if not self.check(name, ok, **detail):
            raise Reject()

    def close(self, name, got, want, rtol=1e-8, atol=1e-12, **detail):
        """Numerical agreement of two scalars or arrays (NaN equals NaN)."""
        self.evals[name] = self.evals.get(name, 0) + 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self._fail(name, dict(got=got, want=want, error=repr(e), **detail))
            return False
        if g.shape != w.shape:
            self._fail(
                name, dict(got_shape=g.shape, want_shape=w.shape, got=g, want=w, **detail)
            )
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            with np.errstate(all="ignore"):
                err = float(np.nanmax(np.abs(g - w))) if g.size else 0.0
            self._fail(name, dict(got=g, want=w, max_abs_err=err, rtol=rtol, atol=atol, **detail))
            return False
        return True

    def equal(self, name, got, want, **detail):
        self.evals[name] = self.evals.get(name, 0) + 1
        try:
            if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
                g, w = np.asarray(got), np.asarray(want)
                ok = g.shape == w.shape and bool(np.all(g == w))
            else:
                ok = bool(got == want)
        except Exception as e:
            self._fail(name, dict(got=got, want=want, error=repr(e), **detail))
            return False
        if not ok:
            self._fail(name, dict(got=got, want=want, **detail))
            return False
        return True

    def refused(self, name, fn, excs=(Exception,), **detail):
        """The operation must be refused with an error."""
        self.evals[name] = self.evals.get(name, 0) + 1
        try:
            r = fn()
        except excs:
            return True
        except Exception as e:
            self._fail(name, dict(raised=repr(e), expected=[x.__name__ for x in excs], **detail))
            return False
        self._fail(name, dict(returned=r, expected="an error", **detail))
        return False


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


def run_item(prop, scen, index, seed):
    """Run one item; returns a plain dict."""
    s = SCENARIOS[prop][scen]
    ctx = Ctx(prop, scen, index, seed)
    # library code that draws from the global generator is made repeatable
    np.random.seed(zlib.crc32(f"{seed}/{prop}/{scen}/{index}".encode()) & 0x7FFFFFFF)
    error = None
    try:
        with quiet():
            s.fn(ctx)
    except Skip as e:
        ctx.skipped = str(e) or "skip"
    except Reject:
        pass
    except TimeoutError as e:
        error = f"watchdog: {e}"
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if "/skfolio/" in f.filename]
        ctx.evals["no-crash"] = ctx.evals.get("no-crash", 0) + 1
        ctx._fail(
            "no-crash",
            dict(
                error=f"{type(e).__name__}: {str(e)[:400]}",
                where="; ".join(
                    f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-6:]
                ),
                in_library=bool(frames),
            ),
        )
    return dict(
        scen=scen,
        index=index,
        evals=ctx.evals,
        sigs=sorted(ctx.sigs),
        violations=ctx.violations,
        skipped=ctx.skipped,
        error=error,
        sample={k: _short(v) for k, v in ctx.notes.items()} if index < 2 else None,
    )
