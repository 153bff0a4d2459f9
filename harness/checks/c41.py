"""C41: data sets, their cache and its location.

Everything that creates, reads or removes cache files runs in a forked child that
has given up root and owns nothing but a scratch directory.
"""

import csv
import gzip
import io
import os
import pickle
import shutil
import tempfile
import urllib.request
import urllib.response
from email.message import Message
from importlib import resources
from pathlib import Path

import numpy as np
import pandas as pd

import gens
from core import rule, scenario

import skfolio.datasets as D
from skfolio.datasets._base import clear_data_home, get_data_home

rule("C41", "one state per loader call, or per cache history (location, file names, steps)")

NOBODY = 65534


def _contained(job):
    """Run job(scratch) in an unprivileged child whose home and working directory are a scratch directory."""
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="verif-c41-"))
    try:
        root = os.getuid() == 0
        if root:
            os.chown(scratch, NOBODY, NOBODY)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                if root:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                os.environ["HOME"] = scratch
                os.environ.pop("SKFOLIO_DATA", None)
                os.chdir(scratch)
                try:
                    out = ("ok", job(scratch))
                except BaseException as e:  # noqa: BLE001
                    out = ("error", f"{type(e).__name__}: {e}")
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("error", "the child died")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class _Remote(urllib.request.HTTPSHandler):
    """A stand-in for the remote data set folder."""

    def __init__(self, files):
        super().__init__()
        self.files = files
        self.asked = []

    def https_open(self, req):
        url = req.full_url
        self.asked.append(url)
        name = url.rsplit("/", 1)[-1]
        head = Message()
        if name not in self.files:
            return urllib.response.addinfourl(io.BytesIO(b"missing"), head, url, 404)
        head["Content-Length"] = str(len(self.files[name]))
        r = urllib.response.addinfourl(io.BytesIO(self.files[name]), head, url, 200)
        r.msg = "OK"
        return r

    http_open = https_open


def _connect(files):
    h = _Remote(files)
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), h))
    return h


def _tree(root):
    return sorted(str(p.relative_to(root)) for p in Path(root).rglob("*"))


def _gz(df):
    return gzip.compress(df.to_csv().encode())


def _prices(rng):
    n, m = gens.some(rng, 3, 12), gens.some(rng, 1, 5)
    df = gens.frame(rng, np.exp(np.cumsum(gens.market(rng, n, m), axis=0)), index=gens.dates(rng, n))
    df.columns = [str(c) for c in df.columns]
    df.index = pd.DatetimeIndex([pd.Timestamp(d).normalize() for d in df.index], name="Date")
    return df


BUNDLED = {
    "load_sp500_dataset": ("sp500_dataset.csv.gz", 8313, 20, "1990-01-02", "2022-12-28", {}),
    "load_sp500_index": ("sp500_index.csv.gz", 8313, 1, "1990-01-02", "2022-12-28", {("1990-01-02", "SP500"): 359.69, ("1990-01-08", "SP500"): 353.79}),
    "load_factors_dataset": ("factors_dataset.csv.gz", 2264, 5, "2014-01-02", "2022-12-28", {("2014-01-02", "MTUM"): 52.704, ("2014-01-08", "VLUE"): 47.253}),
}


@scenario("C41", quick=9, thorough=60)
def bundled(ctx):
    rng = ctx.rng
    name = sorted(BUNDLED)[ctx.index % 3]
    file, n, m, first, last, spots = BUNDLED[name]
    load = getattr(D, name)
    ctx.note(loader=name)
    ctx.state("bundled", name)
    df = load()
    raw = gzip.decompress(resources.files("skfolio.datasets.data").joinpath(file).read_bytes()).decode()
    rows = list(csv.reader(io.StringIO(raw)))
    ctx.equal("shape", df.shape, (n, m))
    ctx.equal("columns", [str(c) for c in df.columns], rows[0][1:])
    ctx.check("dates", isinstance(df.index, pd.DatetimeIndex) and df.index.is_monotonic_increasing and df.index.is_unique)
    ctx.equal("span", [str(df.index[0])[:10], str(df.index[-1])[:10]], [first, last])
    ctx.equal("index", [str(d)[:10] for d in df.index], [r[0] for r in rows[1:]])
    ctx.close("values", df.values, np.array([[float(v) for v in r[1:]] for r in rows[1:]]), rtol=1e-12)
    ctx.check("prices", bool(np.isfinite(df.values).all() and (df.values > 0).all()))
    for (d, c), v in spots.items():
        ctx.close("documented_value", df.loc[d, c], v, rtol=1e-5)
    # the table belongs to the caller
    keep = df.copy()
    df.iloc[int(rng.integers(n)), int(rng.integers(m))] = -1.0
    df["extra"] = 0.0
    ctx.check("fresh_table", load().equals(keep))


REMOTE = {
    "load_ftse100_dataset": "ftse100_dataset",
    "load_nasdaq_dataset": "nasdaq_dataset",
    "load_sp500_implied_vol_dataset": "sp500_implied_vol_dataset",
}


@scenario("C41", quick=40, thorough=400)
def cache(ctx):
    """Download once, keep it, read it back; nothing else is left behind."""
    rng = ctx.rng
    name = sorted(REMOTE)[int(rng.integers(3))]
    file = REMOTE[name]
    first, second = _prices(rng), _prices(rng)
    where = str(rng.choice(["absolute", "relative", "home", "default", "variable", "path"]))
    explicit = bool(rng.random() < 0.5)
    ctx.note(loader=name, where=where, shape=first.shape, explicit=explicit)
    ctx.state("cache", name, where, first.values)

    def job(scratch):
        load = getattr(D, name)
        target = {"absolute": os.path.join(scratch, "a", "b"), "relative": os.path.join("rel", "c"), "home": os.path.join("~", "mine"), "default": None, "variable": None, "path": Path(scratch) / "p"}[where]
        real = {"absolute": "a/b", "relative": "rel/c", "home": "mine", "default": "skfolio_data", "variable": "env/d", "path": "p"}[where]
        real = os.path.join(scratch, real)
        if where == "variable":
            os.environ["SKFOLIO_DATA"] = real
        kw = {} if target is None else {"data_home": target}
        out = {}
        remote = _connect({f"{file}.csv.gz": _gz(first)})
        try:
            load(download_if_missing=False, **kw)
            out["absent"] = "returned"
        except OSError:
            out["absent"] = "refused"
        out["asked_before"] = list(remote.asked)
        if explicit:
            kw["download_if_missing"] = True
        out["got"] = load(**kw)
        out["asked"] = list(remote.asked)
        out["files"] = _tree(real)
        remote = _connect({f"{file}.csv.gz": _gz(second)})
        out["again"] = load(**kw)
        out["offline"] = load(**{**kw, "download_if_missing": False})
        out["asked_again"] = list(remote.asked)
        other = os.path.join(scratch, "elsewhere")
        out["other"] = load(data_home=other)
        out["asked_other"] = list(remote.asked)
        clear_data_home(**{k: v for k, v in kw.items() if k == "data_home"})
        out["cleared"] = not os.path.exists(real) or not os.listdir(real)
        out["other_kept"] = bool(os.path.isdir(other) and os.listdir(other))
        out["after_clear"] = load(**kw)
        out["asked_after_clear"] = list(remote.asked)
        return out

    status, out = _contained(job)
    if not ctx.check("no_crash", status == "ok", error=out if status != "ok" else None):
        return
    same = lambda a, b: list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and np.allclose(a.values, b.values, rtol=1e-12)  # noqa: E731
    ctx.equal("missing_refused", out["absent"], "refused")
    ctx.equal("no_request_when_forbidden", out["asked_before"], [])
    ctx.equal("one_request", len(out["asked"]), 1)
    ctx.check("asked_for_the_data_set", all(u.endswith(f"/{file}.csv.gz") and u.startswith("https://") for u in out["asked"]), asked=out["asked"])
    ctx.check("downloaded_table", same(out["got"], first))
    ctx.check("dates", isinstance(out["got"].index, pd.DatetimeIndex))
    ctx.check("archive_removed", len(out["files"]) == 1 and not out["files"][0].endswith(".gz"), files=out["files"])
    ctx.equal("no_second_request", out["asked_again"], [])
    ctx.check("cached_table", same(out["again"], first) and same(out["offline"], first))
    ctx.check("separate_caches", same(out["other"], second) and len(out["asked_other"]) == 1)
    ctx.check("cleared", out["cleared"])
    ctx.check("only_that_cache_cleared", out["other_kept"])
    ctx.check("downloaded_again_after_clearing", same(out["after_clear"], second) and len(out["asked_after_clear"]) == 2)


@scenario("C41", quick=40, thorough=400)
def location(ctx):
    rng = ctx.rng
    where = str(rng.choice(["absolute", "home", "default", "variable", "variable_home", "both", "nested", "path"]))
    keep = bool(rng.random() < 0.5)
    ctx.note(where=where, existing=keep)
    ctx.state("location", where, keep, int(rng.integers(1000)))

    def job(scratch):
        j = lambda *a: os.path.join(scratch, *a)  # noqa: E731
        arg, real = {
            "absolute": (j("x"), j("x")),
            "home": (os.path.join("~", "y"), j("y")),
            "default": (None, j("skfolio_data")),
            "variable": (None, j("env")),
            "variable_home": (None, j("env2")),
            "both": (j("z"), j("z")),
            "nested": (j("n", "m", "o"), j("n", "m", "o")),
            "path": (Path(scratch) / "q", j("q")),
        }[where]
        if where in ("variable", "both"):
            os.environ["SKFOLIO_DATA"] = j("env")
        if where == "variable_home":
            os.environ["SKFOLIO_DATA"] = os.path.join("~", "env2")
        os.makedirs(j("beside"))
        Path(j("beside", "keep.txt")).write_text("keep")
        if keep:
            os.makedirs(real)
            Path(real, "old.txt").write_text("old")
        got = get_data_home() if arg is None else get_data_home(arg)
        out = {"same": os.path.realpath(got) == real, "exists": os.path.isdir(real), "old": os.path.exists(os.path.join(real, "old.txt")), "got": str(got)}
        Path(real, "new.txt").write_text("new")
        os.makedirs(os.path.join(real, "deep", "er"))
        clear_data_home() if arg is None else clear_data_home(arg)
        out["left"] = _tree(real) if os.path.exists(real) else []
        out["beside"] = os.path.exists(j("beside", "keep.txt"))
        out["env_untouched"] = where != "both" or not os.path.exists(j("env"))
        out["back"] = os.path.isdir(get_data_home() if arg is None else get_data_home(arg))
        return out

    status, out = _contained(job)
    if not ctx.check("no_crash", status == "ok", error=out if status != "ok" else None):
        return
    ctx.check("place", out["same"], got=out["got"])
    ctx.check("created", out["exists"])
    ctx.equal("existing_content_kept", out["old"], keep)
    ctx.equal("cleared", out["left"], [])
    ctx.check("nothing_else_removed", out["beside"])
    ctx.check("argument_before_variable", out["env_untouched"])
    ctx.check("recreated", out["back"])


@scenario("C41", quick=20, thorough=200)
def broken_downloads(ctx):
    """A failed download is reported and not kept as if it were data."""
    rng = ctx.rng
    name = sorted(REMOTE)[int(rng.integers(3))]
    file = REMOTE[name]
    kind = str(rng.choice(["missing", "not_gzip"]))
    good = _prices(rng)
    ctx.note(loader=name, kind=kind)
    ctx.state("broken", name, kind, good.values)

    def job(scratch):
        load = getattr(D, name)
        home = os.path.join(scratch, "h")
        _connect({} if kind == "missing" else {f"{file}.csv.gz": b"this is not an archive"})
        out = {}
        try:
            load(data_home=home)
            out["first"] = "returned"
        except Exception:
            out["first"] = "refused"
        _connect({f"{file}.csv.gz": _gz(good)})
        out["second"] = load(data_home=home)
        return out

    status, out = _contained(job)
    if not ctx.check("no_crash", status == "ok", error=out if status != "ok" else None):
        return
    ctx.equal("failure_reported", out["first"], "refused")
    ctx.close("good_table_afterwards", out["second"].values, good.values, rtol=1e-12)
