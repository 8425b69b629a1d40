#!/usr/bin/env python3
"""Runs the checks against the mutants in dev/*.mut (development aid; no check reads it).

A mutant is a block
    ## CHECK[,CHECK...] bad|ok FILE  # comment
    old text
    ===>
    new text
(further "@@ FILE" / old / ===> / new sections may follow).  "bad": one of the checks must report a violation;
"ok": all listed checks must stay quiet.  usage: mutants.py [filter]"""
import os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/mutw"


def load():
    out = []
    for p in sorted(glob.glob(HERE + "/*.mut")):
        blocks = re.split(r"(?m)^## ", open(p).read())[1:]
        for n, b in enumerate(blocks):
            head, rest = b.split("\n", 1)
            head, _, cmt = head.partition("#")
            checks, kind, f = head.split()
            edits = []
            for part in re.split(r"(?m)^@@ ", "%s\n%s" % (f, rest)):
                ff, t = part.split("\n", 1)
                old, new = t.split("\n===>\n") if "\n===>\n" in t else t.split("===>\n")
                edits.append((ff.strip(), old.strip("\n"), new.strip("\n")))
            out.append(("%s#%d" % (os.path.basename(p)[:-4], n + 1), checks.split(","), kind, edits, cmt.strip()))
    return out


def run(job):
    (mid, checks, kind, edits, cmt), root = job
    saved = {}
    try:
        for f, old, new in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) != 1:
                return mid, "STALE", "%s occurs %d times: %s" % (f, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
        outs, hit = [], False
        for c in checks:
            r = subprocess.run(["bash", HERE + "/../check.sh", c], env=dict(os.environ, VERIF_REPO=root, VERIF_EVID=root + "/.evid"), capture_output=True, text=True)
            hit |= r.returncode == 1
            msg = [l.strip()[:170] for l in r.stdout.splitlines() if not l.startswith(("property", "KNOWN", "VIOL"))]
            outs.append("%s rc=%d %s%s" % (c, r.returncode, " / ".join(msg[:2]), r.stderr[-200:] if r.returncode not in (0, 1) else ""))
        good = hit if kind == "bad" else all(" rc=0" in o for o in outs)
        return mid, "good" if good else "MISSED" if kind == "bad" else "FALSE ALARM", " || ".join(outs) + "  # " + cmt
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)


def main():
    jobs = [j for j in load() if len(sys.argv) < 2 or any(a in j[0] or a in j[1] for a in sys.argv[1:])]
    n = min(8, len(jobs))
    roots = []
    os.makedirs(W, exist_ok=True)
    for i in range(n):
        r = "%s/%d" % (W, i)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/", r + "/"] if shutil.which("rsync") else ["bash", "-c", "mkdir -p %s && cp -a /repo/. %s/" % (r, r)], check=True)
        roots.append(r)
    import queue
    q = queue.Queue()
    for r in roots:
        q.put(r)

    def go(j):
        r = q.get()
        try:
            return run((j, r))
        finally:
            q.put(r)
    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for mid, st, msg in ex.map(go, jobs):
            bad += st != "good"
            print("%-12s %-8s %s" % (st, mid, msg[:330]))
            sys.stdout.flush()
    print("%d mutants, %d not as expected" % (len(jobs), bad))


main()
