#!/usr/bin/env python3
"""seedtest.py <seed id>... [--checks C01,C02]: confirm a planted bug in a scratch
copy of /repo (applies, builds, passes the stable tests, demonstration tells the
trees apart) and run the check of its property against it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "
def sh(c, cwd, **kw):
    return subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, **kw)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"] if "stable" in b else b["passed"])
def one(sid, checks):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/seedwt-%s-%d" % (sid, os.getpid())
    sh("git -C /repo worktree prune; rm -rf %s; git clone -q /repo %s" % (w, w), "/")
    try:
        r = sh("bash %s/demo.sh" % d, w, timeout=300)
        if r.returncode: return "demo fails on the clean tree\n" + r.stdout[-2000:] + r.stderr[-2000:]
        r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), w)
        if r.returncode: return "patch does not apply: " + r.stderr
        r = sh(ENV + "go build ./... && go test -json ./... 2>&1", w)
        got = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "fail": return "tests fail: %s" % e
        r = sh("bash %s/demo.sh" % d, w, timeout=300)
        if r.returncode == 0: return "demo passes with the patch"
        res = []
        for c in checks or [meta["property"]]:
            r = sh("python3 %s/check.py %s" % (V, c), V, env=dict(os.environ, VERIF_REPO=w))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            res.append("%s: %s" % (c, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode != 0 else "")))
        return "ok " + "; ".join(res)
    finally:
        shutil.rmtree(w, True)
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = [a[9:].split(",") for a in sys.argv[1:] if a.startswith("--checks=")]
for sid in ids or sorted(os.listdir(V + "/seeded")):
    print(sid, one(sid, checks[0] if checks else None), flush=True)
