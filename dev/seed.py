#!/usr/bin/env python3
"""Validates planted bugs in private copies of /repo (bind-mounted over /repo in a mount namespace).
usage: seed.py [--new] ID...   (IDs are folders of /verif/seeded; all if none)"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

INNER = r"""
mount --bind %(r)s /repo || exit 90
cd /repo
bash /opt/vp/build.sh >%(w)s/b0.log 2>&1 || exit 91
timeout -s KILL 300 bash %(d)s/demo.sh >%(w)s/d0.log 2>&1; echo "clean=$?"
git apply %(p)s || exit 92
bash /opt/vp/build.sh >%(w)s/b1.log 2>&1 || exit 93
bash /opt/vp/test.sh %(w)s/t.json >%(w)s/t.log 2>&1
timeout -s KILL 300 bash %(d)s/demo.sh >%(w)s/d1.log 2>&1; echo "patched=$?"
cd %(v)s
VERIF_EVID=%(w)s/evid timeout 900 bash check.sh %(c)s >%(w)s/c.log 2>&1; echo "check=$?"
cd /repo; git apply -R %(p)s; bash /opt/vp/build.sh >%(w)s/b2.log 2>&1
"""


def one(a):
    n, i = a
    d0 = os.path.join(V, "seeded", i)
    w = "%s/w%d" % (W, n)
    r = "%s/repo%d" % (W, n)
    os.makedirs(w, exist_ok=True)
    if not os.path.exists(r):
        subprocess.run(["cp", "-a", "/repo", r], check=True)
    subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (r, r), shell=True, check=True)
    d = w + "/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(d0, d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.unlink(os.path.join(d, f))
    meta = json.load(open(d0 + "/meta.json"))
    s = INNER % dict(r=r, w=w, d=d, p=d0 + "/patch.diff", v=V, c=meta["property"])
    o = subprocess.run(["unshare", "-m", "bash", "-c", s], capture_output=True, text=True)
    out = o.stdout.split()
    t = "?"
    if os.path.exists(w + "/t.json"):
        p = set(json.load(open(w + "/t.json"))["passed"])
        t = "ok" if STABLE <= p else "FAIL " + ",".join(sorted(STABLE - p)[:3])
    c = [l.strip()[:150] for l in open(w + "/c.log")][:3] if os.path.exists(w + "/c.log") else []
    res = dict(x.split("=") for x in out if "=" in x)
    good = res.get("clean") == "0" and res.get("patched", "0") != "0" and t == "ok"
    return "%-28s %s %s rc=%d %s tests=%s %s\n      %s" % (i, "valid" if good else "INVALID", "caught" if res.get("check") == "1" else "NOT CAUGHT", o.returncode, " ".join(out), t, o.stderr.strip()[-200:], "\n      ".join(c))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    import queue
    q = queue.Queue()
    for k in range(4):
        q.put(k)

    def job(i):
        k = q.get()
        try:
            return one((k, i))
        finally:
            q.put(k)
    with ThreadPoolExecutor(4) as ex:
        for l in ex.map(job, ids):
            print(l, flush=True)


main()
