#!/usr/bin/env python3
"""Build seeded/<id> from tools/bugspecs.py and validate it in a scratch copy of /repo.

plant.py make [ids]      write patch.diff, demo.sh, demo.py, meta.json
plant.py demo [ids]      demo passes on /repo, fails on the patched copy
plant.py catch [ids]     run the property's quick check against the patched copy
plant.py test [ids]      run the stable tests on the patched copy
"""
import importlib.util, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"


def specs():
    sys.path.insert(0, HERE)
    import bugspecs
    return bugspecs.BUGS


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch(i):
    d = f"{SCR}/{i}"
    sh(f"rm -rf {d}; mkdir -p {SCR}; git -C /repo worktree prune; cp -a /repo {d}; git -C {d} checkout -q -- .")
    return d


def patched(i):
    d = scratch(i)
    r = sh(f"git -C {d} apply {ROOT}/seeded/{i}/patch.diff")
    assert r.returncode == 0, (i, r.stderr)
    return d


def make(b):
    i = b["id"]
    d = scratch(i)
    for f, old, new in b["edits"]:
        p = f"{d}/src/skfolio/{f}"
        s = open(p).read()
        assert s.count(old) == b.get("count", 1), (i, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {d} diff").stdout
    assert diff, i
    out = f"{ROOT}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(f"{out}/meta.json", "w"), indent=1)
    sh(f"rm -rf {d}")


def demo(i):
    d = patched(i)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    a = sh(f"bash {ROOT}/seeded/{i}/demo.sh", cwd="/repo", env=env)
    b = sh(f"find {d} -name __pycache__ -prune -exec rm -rf {{}} +; bash {ROOT}/seeded/{i}/demo.sh", cwd=d, env=dict(env, PYTHONPATH=f"{d}/src"))
    sh(f"rm -rf {d}")
    ok = a.returncode == 0 and b.returncode != 0
    print(i, "demo", "ok" if ok else f"BAD clean={a.returncode} patched={b.returncode}", flush=True)
    if a.returncode:
        print(a.stderr[-1500:])
    elif "AssertionError" not in b.stderr:
        print("   patched:", b.stderr[-300:].replace("\n", " | "))
    return ok


def catch(i, prop):
    d = patched(i)
    env = dict(os.environ, VERIF_REPO_SRC=f"{d}/src", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE=f"{d}/evidence")
    r = sh(f"{PY} {ROOT}/harness/run.py --prop {prop} --tier quick", cwd=ROOT, env=env)
    sh(f"rm -rf {d}")
    hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    mons = [l.strip().split(":")[0].replace("monitor ", "") for l in r.stdout.splitlines() if l.strip().startswith("monitor ")]
    print(i, prop, "CAUGHT" if hit else f"MISSED rc={r.returncode}", "; ".join(mons[:4]), flush=True)
    if not hit and r.returncode != 0:
        print(r.stdout[-500:], r.stderr[-800:])
    f = f"{HERE}/caught.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    c[i] = ", ".join(f"{prop}/{m}" for m in mons[:2]) if hit else "missed"
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    return hit


def test(i):
    d = patched(i)
    s = open("/opt/vp/test.sh").read().replace("/repo", d).replace('[ "$N" -gt 8 ] && N=8', f'N={os.environ.get("PLANT_N", "4")}')
    open(f"{SCR}/{i}.test.sh", "w").write(s)
    env = dict(os.environ, PYTHONPATH=f"{d}/src")
    sh(f"bash {SCR}/{i}.test.sh {SCR}/{i}.json > {SCR}/{i}.log 2>&1", env=env)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open(f"{SCR}/{i}.json"))["passed"])
    miss = sorted(base - got)
    print(i, "tests", "ok" if not miss else f"FAIL {len(miss)} {miss[:4]}", flush=True)
    sh(f"rm -rf {d}")
    f = f"{SCR}/tested.json"
    t = json.load(open(f)) if os.path.exists(f) else {}
    t[i] = len(miss)
    json.dump(t, open(f, "w"))
    return not miss


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    B = {b["id"]: b for b in specs()}
    for i in ids or list(B):
        b = B[i]
        if cmd == "make":
            make(b)
        elif cmd == "demo":
            demo(i)
        elif cmd == "catch":
            catch(i, b["prop"])
        elif cmd == "test":
            test(i)
        elif cmd == "all":
            make(b)
            demo(i) and catch(i, b["prop"])
