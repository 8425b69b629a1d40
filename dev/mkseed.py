#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< 'old ===> new [@@ FILE old ===> new]...'  + '%% needs' + '%% breaks'
Writes seeded/ID/patch.diff and meta.json from an edit description on stdin."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, f = sys.argv[1:4]
t = sys.stdin.read()
t, needs, breaks = t.split("\n%% ")
d = os.path.join(V, "seeded", i)
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm x" % (w, w), shell=True, check=True)
for part in re.split(r"(?m)^@@ ", f + "\n" + t):
    ff, b = part.split("\n", 1)
    old, new = b.split("\n===>\n") if "\n===>\n" in b else b.split("\n===>")
    old, new = old.strip("\n"), new.strip("\n")
    p = os.path.join(w, ff.strip())
    s = open(p).read()
    assert s.count(old) == 1, (ff, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs.strip(), what_it_breaks=breaks.strip()), open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(d)
