#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py and checks.tab; checks that anchors exist."""
import json, os, importlib, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here); sys.path.insert(0, here)
P = []; NA = []
for f in sorted(glob.glob(os.path.join(here, "props_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3]); P += m.P; NA += getattr(m, "NA", [])
tab = {l.split()[0]: l.split() for l in open(os.path.join(root, "checks.tab")) if l.strip() and l[0] != "#"}
checks = []
with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for q in P:
        for f in q["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): print("missing anchor", q["id"], f)
        for x in q["anchors"]["mechanism"]:
            if not os.path.exists("/repo/" + x["where"].split(":")[0].split(" ")[0]): print("missing mechanism", q["id"], x["where"])
        if len(q["title"]) > 80: print("long title", q["id"], len(q["title"]))
        o.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        if q["id"] in tab:
            checks.append(dict(property=q["id"], quick_cmd="./check " + q["id"], thorough_cmd="./check " + q["id"], evidence_file="evidence/%s.json" % q["id"], technique=q["technique"], level="exploration", level_note=q["note"]))
        elif q["id"] not in [n["property"] for n in NA]: print("property without check or reason", q["id"])
M = dict(version=1, setup_cmd="make -s -j8 all", checks=checks, not_applicable=NA)
hooks = os.path.join(here, "hooks.json")
if os.path.exists(hooks): M["hooks"] = json.load(open(hooks))
json.dump(M, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(checks), "checks", len(NA), "not applicable")
