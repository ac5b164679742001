#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY DIFF BINARY 'needs' 'what it breaks' [MAKE-TARGET]: search for a failing scenario on a scratch copy of /repo with DIFF
applied, store patch, scenario, simulator sources and demo.sh in seeded/NAME, and confirm both outcomes on scratch copies."""
import json, os, re, shutil, subprocess, sys, tempfile
name, prop, diff, binary, needs, breaks = sys.argv[1:7]
target = sys.argv[7] if len(sys.argv) > 7 else "app"
V = "/verif"; W = tempfile.mkdtemp(prefix="mkseed")
def run(c, env=None, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **(env or {})), **k)
R = W + "/repo"; shutil.copytree("/repo", R, symlinks=True)
a = run(["git", "-C", R, "apply", diff]); assert a.returncode == 0, a.stdout
C = W + "/v"; os.makedirs(C)
subprocess.run("git archive HEAD | tar x -C " + C, shell=True, cwd=V, check=True)        # the committed state
rep = None
for seed in ("1", "2", "3", "4", "5"):
    r = run([C + "/check", prop], {"SIM_REPO": R, "VERIF_SEED": seed, "VERIF_BUDGET": "60"})
    m = re.search(r"VIOLATION property=%s replay=(\S+)" % prop, r.stdout)
    if m: rep = m.group(1) if m.group(1).startswith("/") else C + "/" + m.group(1); print("seed %s: %s" % (seed, [l for l in r.stdout.split("\n") if l.startswith("violation:")][:1])); break
    print("seed %s: missed, rc %d %s" % (seed, r.returncode, "" if r.returncode == 0 else r.stdout[-500:]))
if not rep: print("NOT CAUGHT"); subprocess.run(["find", W, "-delete"]); sys.exit(1)
D = V + "/seeded/" + name; os.makedirs(D, exist_ok=True)
shutil.copy(diff, D + "/patch.diff"); shutil.copy(rep, D + "/scenario.replay")
subprocess.run(["tar", "czf", D + "/src.tgz", "-C", C, "engine", "sim", "Makefile"] + [x for x in ("shim", "rust") if os.path.isdir(C + "/" + x)], check=True)
open(D + "/demo.sh", "w").write("""#!/bin/bash
# Replays one recorded history (scenario.replay) against the tree in /repo: exit 0 when every answer and every recovered state is legal.
# Builds its simulator in a scratch directory; the disk and the crashes are simulated in memory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'find "$t" -depth -delete' EXIT
tar xzf "$d/src.tgz" -C "$t" || exit 3
make -s -j8 -C "$t" B="$t/b" %s >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
"$t/b/%s" --prop %s --replay "$d/scenario.replay"
""" % (target, binary, prop))
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
for want, repo in ((0, "/repo"), (1, R)):
    r = run(["bash", D + "/demo.sh"], {"SIM_REPO": repo}, cwd=repo); print("demo on %s: %d" % (repo, r.returncode))
    if (r.returncode != 0) != bool(want): print("DEMO WRONG", r.stdout[-1500:])
subprocess.run(["find", W, "-delete"])
