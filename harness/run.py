#!/usr/bin/env python3
"""Driver: run the monitors of one property (or replay one witness)."""

import os

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

import argparse
import importlib
import importlib.machinery
import json
import multiprocessing as mp
import signal
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO_SRC)


class _FreshLoader(importlib.machinery.SourceFileLoader):
    """Compile the library from source; never trust a bytecode cache."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def _fresh_hook(path):
    if os.path.abspath(path).startswith(os.path.abspath(REPO_SRC)):
        return importlib.machinery.FileFinder(
            path, (_FreshLoader, importlib.machinery.SOURCE_SUFFIXES)
        )
    raise ImportError


sys.path_hooks.insert(0, _fresh_hook)
sys.path_importer_cache.clear()

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
ITEM_WATCHDOG_S = {"quick": 150, "thorough": 600}
TIER_WATCHDOG_S = {"quick": 600, "thorough": 4 * 3600}


def _alarm(signum, frame):
    raise TimeoutError("item watchdog")


def _work(args):
    import core

    prop, scen, index, seed, tier, deadline = args
    if time.time() > deadline:
        return dict(scen=scen, index=index, evals={}, sigs=[], violations=[], skipped=None,
                    error="tier watchdog", sample=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ITEM_WATCHDOG_S[tier])
    try:
        return core.run_item(prop, scen, index, seed)
    except TimeoutError as e:
        return dict(scen=scen, index=index, evals={}, sigs=[], violations=[], skipped=None,
                    error=str(e), sample=None)
    finally:
        signal.alarm(0)


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as fh:
        return json.load(fh)["findings"]


def load_check(prop):
    import skfolio

    src = os.path.abspath(skfolio.__file__)
    if not src.startswith(os.path.abspath(REPO_SRC)):
        print(f"ERROR: library imported from {src}, expected {REPO_SRC}")
        sys.exit(2)
    importlib.import_module(f"checks.{prop.lower()}")


def run(prop, tier, seed, only=None, jobs=None):
    import core

    t0 = time.time()
    load_check(prop)
    scens = core.SCENARIOS[prop]
    deadline = t0 + TIER_WATCHDOG_S[tier]
    items = []
    for s in scens.values():
        if only and s.name not in only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        items += [(s.weight, (prop, s.name, i, seed, tier, deadline)) for i in range(n)]
    items.sort(key=lambda x: -x[0])
    items = [x[1] for x in items]
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    results = []
    if os.environ.get("VERIF_FAILFAST"):
        # used by tools/mutate.py: one process, stop at the first violation
        for a in sorted(items, key=lambda x: x[2]):
            results.append(_work(a))
            if results[-1]["violations"]:
                break
    elif jobs == 1:
        results = [_work(a) for a in items]
    else:
        import concurrent.futures as cf

        ctx = mp.get_context("fork")
        n_by = max(1, min(16, len(items) // (jobs * 12)))
        with cf.ProcessPoolExecutor(jobs, mp_context=ctx) as pool:
            results = list(pool.map(_work, items, chunksize=n_by))
    return finish(prop, tier, seed, results, t0, set(only or scens))


def finish(prop, tier, seed, results, t0, scen_names):
    import core

    evals, sigs, viol, samples, skipped, errors = {}, set(), [], [], {}, []
    per_scen = {}
    for r in results:
        ps = per_scen.setdefault(r["scen"], dict(items=0, evaluations=0, skipped=0))
        ps["items"] += 1
        for k, v in r["evals"].items():
            evals[k] = evals.get(k, 0) + v
            ps["evaluations"] += v
        sigs.update(r["scen"] + ":" + s for s in r["sigs"])
        viol += r["violations"]
        if r["skipped"]:
            ps["skipped"] += 1
            skipped[r["skipped"]] = skipped.get(r["skipped"], 0) + 1
        if r["error"]:
            errors.append((r["scen"], r["index"], r["error"]))
        if r["sample"] and len(samples) < 8:
            samples.append(dict(scenario=r["scen"], index=r["index"], **r["sample"]))
    known = {
        f["monitor"]: f for f in load_known() if f["property"] == prop and f["status"] == "known"
    }
    new, seen_known = [], {}
    for v in viol:
        if (key := f"{v['scenario']}/{v['monitor']}") in known:
            seen_known.setdefault(key, v)
        else:
            new.append(v)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    wall = time.time() - t0
    n_eval = sum(evals.values())
    ev = dict(
        property=prop,
        tier=tier,
        seed=int(seed),
        level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(sigs),
            rule=core.RULES.get(prop, "distinct generated cases, by content hash"),
            samples=samples,
            monitor_evaluations=n_eval,
            monitors=dict(sorted(evals.items())),
            scenarios=per_scen,
            skipped=skipped,
            watchdog_stops=len(errors),
        ),
        assumptions=[
            "held on the executions listed here; nothing is claimed beyond them",
            "numerical tolerances absorb solver and floating-point error",
        ],
        wall_s=round(wall, 2),
        violations=len(new),
    )
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {len(results)} workload items, {n_eval} monitor evaluations "
        f"({len(evals)} monitors), {len(sigs)} distinct states, {wall:.1f}s"
    )
    if errors:
        print(f"inconclusive items (watchdog): {errors[:5]}")
    if new:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        by = {}
        for v in new:
            by.setdefault((v["scenario"], v["monitor"]), []).append(v)
        for (sc, mo), vs in list(by.items())[:12]:
            print(f"  monitor {sc}/{mo}: {len(vs)} violations; first: index={vs[0]['index']} "
                  f"detail={json.dumps(vs[0]['detail'])[:700]} case={json.dumps(vs[0]['case'])[:300]}")
        path = os.path.join(EVID, "replay", f"{prop}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, seed=int(seed), tier=tier,
                           witnesses=[vs[0] for vs in by.values()]), fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    # zero evaluations of a scenario means nothing was decided there
    empty = [s for s in scen_names if per_scen.get(s, {}).get("evaluations", 0) == 0]
    if empty or n_eval == 0:
        print(f"INCONCLUSIVE property={prop}: no monitor evaluation in {empty}")
        return 3
    print(f"HELD property={prop} on the executions above")
    return 0


def selftest():
    """setup_cmd: check the environment and that every claimed check loads."""
    import core  # noqa: F401

    import skfolio

    assert os.path.abspath(skfolio.__file__).startswith(os.path.abspath(REPO_SRC)), skfolio.__file__
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    for c in man["checks"]:
        load_check(c["property"])
    load_known()
    with tempfile.TemporaryDirectory():
        pass
    print(f"selftest ok: {len(man['checks'])} checks load")
    return 0


def replay(path):
    import core

    d = json.load(open(path))
    load_check(d["property"])
    bad = 0
    for w in d["witnesses"]:
        r = core.run_item(d["property"], w["scenario"], w["index"], d["seed"])
        print(w["scenario"], w["index"], json.dumps(r["violations"], indent=1)[:4000])
        bad += bool(r["violations"])
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    return run(a.prop, a.tier, a.seed, a.only, a.jobs)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or "VERIF_REEXEC" not in os.environ:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
