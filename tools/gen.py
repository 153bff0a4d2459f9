#!/usr/bin/env python3
"""Regenerate /verif/properties.jsonl and /verif/MANIFEST.json from propdefs.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from propdefs import PROPS  # noqa: E402

NOT_CLAIMED = {}
# properties whose check module exists
have = {
    f[:-3].upper()
    for f in os.listdir(os.path.join(ROOT, "harness", "checks"))
    if f.startswith("c") and f.endswith(".py")
}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        fh.write(
            json.dumps(
                dict(
                    id=p["id"],
                    title=p["title"],
                    statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]),
                    why_tests_cant=p["why"],
                    anchors=dict(
                        files=p["files"],
                        mechanism=p["mech"],
                        observe_at=p["observe"],
                        hook_needed=None,
                    ),
                )
            )
            + "\n"
        )
        assert len(p["title"]) <= 80, p["id"]
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python harness/run.py --selftest",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"/opt/venv/bin/python harness/run.py --prop {p['id']} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python harness/run.py --prop {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique="runtime monitoring: " + p["technique"],
            level="exploration",
            level_note=p["note"],
        )
        for p in PROPS
        if p["id"] in have
    ],
    not_applicable=[
        dict(property=p["id"], reason=NOT_CLAIMED.get(p["id"], "check under construction"))
        for p in PROPS
        if p["id"] not in have
    ],
    notes="No hooks are compiled into /repo: every monitor observes the public API from the harness process, which imports /repo/src afresh (bytecode caches ignored).",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(man["checks"]), "claimed,", len(man["not_applicable"]), "not claimed")


# ---- DESIGN.md -----------------------------------------------------------------
import ast

head = open(os.path.join(HERE, "design_head.md")).read()
tail = open(os.path.join(HERE, "design_tail.md")).read()
body = ["\n## Properties\n"]
for p in PROPS:
    body.append(f"### {p['id']} {p['title']}\n")
    body.append(p["statement"] + "\n")
    path = os.path.join(ROOT, "harness", "checks", p["id"].lower() + ".py")
    body.append(f"*Decided by*: {p['technique']}. *Quantifies over*: {p['text']}. *Why tests cannot settle it*: {p['why']}\n")
    body.append(f"*Bounds and strength*: {p['note']}\n")
    if os.path.exists(path):
        for n in ast.parse(open(path).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "scenario":
                    kw = {k.arg: ast.literal_eval(k.value) if isinstance(k.value, ast.Constant) else "one per case" for k in d.keywords}
                    doc = (ast.get_docstring(n) or "").replace("\n", " ").strip()
                    body.append(f"- `{n.name}` ({kw.get('quick')} quick / {kw.get('thorough') or kw.get('quick', 0) * 12} thorough items){': ' + doc if doc else ''}")
        body.append("")
    else:
        body.append("Not claimed: " + NOT_CLAIMED.get(p["id"], "check under construction") + "\n")
seeded = os.path.join(ROOT, "seeded")
tab = ["\n## Planted bugs and the checks that catch them\n"]
caught_file = os.path.join(HERE, "caught.json")
caught = json.load(open(caught_file)) if os.path.exists(caught_file) else {}
if os.path.isdir(seeded):
    tab += ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, d, "meta.json")))
        tab.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {caught.get(d, 'not run yet')} |")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
    fh.write(head + "\n".join(body) + tail + "\n".join(tab) + "\n")
