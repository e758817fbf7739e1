#!/usr/bin/env python3
"""seedcheck.py ID...: confirms in a scratch copy of /repo that each planted bug applies, builds, passes the
stable tests, and that its demo passes on the unchanged tree and fails with the patch."""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "/opt/veriftools/go1.23.12"
env = dict(os.environ, GOROOT=G, PATH=G + "/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod -buildvcs=false", GOWORK="off", CGO_ENABLED="1", TZ="UTC")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def one(i):
    s = f"{root}/seeded/{i}"
    with tempfile.TemporaryDirectory(prefix="seedchk.") as w:
        r, d = w + "/repo", w + "/demo"
        shutil.copytree("/repo", r, symlinks=True)
        shutil.copytree(s, d)
        for f in ("patch.diff", "meta.json"): os.unlink(f"{d}/{f}")
        bad = []
        rc, o0 = run(["bash", d + "/demo.sh"], r)
        if rc: bad.append("demo fails unpatched: " + o0[-400:])
        rc, o = run(["git", "apply", s + "/patch.diff"], r)
        if rc: return i, "BAD", ["no apply: " + o]
        rc, o = run(["go", "build", "./..."], r)
        if rc: return i, "BAD", ["no build: " + o]
        rc, o = run(["go", "test", "-json", "-race", "-vet=off", "-count=1", "./..."], r)
        ok = set()
        for l in o.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        miss = stable - ok
        if miss: bad.append("tests fail: " + ", ".join(sorted(miss)[:5]))
        rc, o1 = run(["bash", d + "/demo.sh"], r)
        if rc == 0: bad.append("demo passes patched")
        return i, "BAD" if bad else "ok", bad or [o1.strip().splitlines()[0][:160] if o1.strip() else ""]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for i, st, msg in ex.map(one, sys.argv[1:]):
        print(i, st, *msg, flush=True)
