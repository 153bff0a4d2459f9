#!/usr/bin/env python3
"""Regenerate known_findings.json: repaired defects (from /repo's history) and recorded ones."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "drop cached convex models": "C35",
 "assign all remainder": "C08", "do not rescale the implied": "C35", "reject negative implied": "C21",
 "do not modify the risk budget": "C35", "do not modify the view confidences": "C35",
 "absolute option of DropCorrelated": "C29", "purge the train set": "C09", "ignore WalkForward": "C09",
 "count the splits of WalkForward": "C09", "scale the tracking error": "C11",
 "enforce variance and semi-variance": "C11", "report the worst case variance": "C26",
 "more than one comparison": "C31", "intended error for cardinality": "C11",
 "costs, fees and previous weights by asset name in HRP": "C17", "float as previous weights": "C02",
 "target aligned with the observations in nested": "C19", "always return unique names": "C05",
 "target lists of different lengths": "C13", "refuse to append a portfolio": "C05",
 "do not share the portfolio list": "C05", "asset columns of the fit parameters": "C10",
 "entropic value at risk of returns without losses": "C01",
 "appending to the copy of a multi-period": "C05", "return the population from": "C06",
 "validate the items added to a population": "C06", "rolling annualized ratios": "C03",
 "format infinite measures": "C02", "empirical covariance of a single asset": "C21",
 "apply min_return to the expected return": "C15", "number of clusters of two assets": "C28",
 "minimum weights above one": "C17", "divide by zero weights when splitting": "C17", "weights rounded below zero": "C17", "sum to one up to rounding": "C17",
 "stacked estimator by name": "C20", "eigenvalue density on the eigenvalue grid": "C21", "eigenvalue densities point by point": "C21",
 "fitted moments unchanged in the log-normal": "C24",
 "count only the missing asset prices": "C30", "vines with rotated copulas": "C34",
 "overflow in the Clayton": "C33", "underflow in the Gumbel": "C33", "probabilities of the Gumbel": "C33",
 "distribution estimator in SyntheticData": "C34", "vine copula plots": "C34", "inverse of the Joe": "C33",
 "observations instead of portfolios in the population cumulative": "C40", "plot measure surfaces": "C40",
 "symmetric distances of perfectly": "C27", "plot measure distributions": "C40", "draw contributions and rolling": "C40", "data directory given as a relative": "C41", "floor and truncate portfolios": "C04", "unknown groups in group cardinalities": "C31", "independent copula among the copula": "C33", "group dictionaries with several": "C11",
 "maximum diversification picklable": "C35", "cross-validation splitter passed": "C35",
}
KNOWN = [
 dict(property="C11", monitor="custom_constraint_in_ratio/custom weight limit holds in the ratio problem",
      what="MeanRisk with MAXIMIZE_RATIO and add_constraints=lambda w: w[0] <= a (the fixed market of scenario custom_constraint_in_ratio): "
           "the limit is applied to the scaled variable of the ratio problem, so the returned weight exceeds a; a repair needs the "
           "perspective of arbitrary user expressions"),
]  # recorded, not repaired: dict(property, monitor, what)
extra = os.path.join(ROOT, "tools", "findings_extra.json")
if os.path.exists(extra):
    d = json.load(open(extra)); PROP.update(d.get("fixed", {})); KNOWN += d.get("known", [])
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a9b8e79..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    keys = [k for k in PROP if k in s]
    assert len(keys) == 1, (s, keys)
    p = PROP[keys[0]]
    out.append(dict(property=p, status="fixed", commit=h, monitor=None, what=f"fixed: property={p} {h} {s[5:]}"))
for k in KNOWN:
    out.append(dict(k, status="known"))
json.dump(dict(findings=out), open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(out))
