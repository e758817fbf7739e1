#!/usr/bin/env python3
"""seedrun.py [--all-checks] [ID|PROPERTY|FILE.diff...]: applies each planted bug to a scratch copy of /repo in turn, runs the
check of its property (or every check) on it with a scratch copy of the harness, and prints whether it was caught."""
import json, os, re, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allc = "--all-checks" in args
verbose = "-v" in args
only = [x for a in args if a.startswith("--only=") for x in ("-only", a[7:])]
sel = [a for a in args if not a.startswith("-")]
every = sorted(os.listdir(root + "/seeded")) if os.path.isdir(root + "/seeded") else []
ids = []
for i in every:
    p = json.load(open(f"{root}/seeded/{i}/meta.json"))["property"]
    if not sel or i in sel or p in sel: ids.append((i, p, f"{root}/seeded/{i}/patch.diff"))
for s in sel:
    if ":" in s and s.split(":")[1].endswith(".diff"): ids.append((s, *s.split(":")))
m = json.load(open(root + "/MANIFEST.json"))
claimed = [c["property"] for c in m["checks"]]
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
with tempfile.TemporaryDirectory(prefix="seedrun.") as w:
    subprocess.run(["go", "build", "-buildvcs=false", "-o", w + "/eng", "."], cwd=root + "/engine", env=env, check=True)
    shutil.copytree("/repo", w + "/clean", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(root + "/harness", w + "/harness")
    shutil.copy(root + "/known-findings.txt", w)
    g = open(w + "/harness/go.mod").read()
    open(w + "/harness/go.mod", "w").write(g.replace("=> /repo", "=> " + w + "/repo"))
    for i, prop, patch in ids:
        shutil.rmtree(w + "/repo", ignore_errors=True)
        shutil.copytree(w + "/clean", w + "/repo")
        subprocess.run(["patch", "-s", "-p1", "-i", os.path.abspath(patch)], cwd=w + "/repo", check=True)
        hit, t = [], time.time()
        for p in (claimed if allc else [prop]):
            if p not in claimed:
                hit.append(p + ":unclaimed"); continue
            r = subprocess.run([w + "/eng", "-prop", p, "-dir", w + "/harness", "-root", w, *only], capture_output=True, text=True, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            if r.returncode == 1 and v: hit.append(p)
            elif r.returncode: hit.append(f"{p}:rc{r.returncode} {r.stderr[-300:]}")
            if verbose or not allc and not v: print(*[l[:300] for l in r.stdout.splitlines() if verbose or l.startswith("NOTE")][:40], sep="\n    ")
        print(i, prop, "CAUGHT by " + ",".join(hit) if hit else "MISSED", f"{time.time()-t:.0f}s", flush=True)
