#!/usr/bin/env python3
"""Writes DESIGN.md (development aid)."""
import ast, glob, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
known = json.load(open(V + "/known_findings.json"))["findings"]
muts = []
for f in sorted(glob.glob(HERE + "/*.mut")):
    for m in re.finditer(r"^## (\S+) (bad|ok) ", open(f).read(), re.M):
        muts.append((m.group(1).split(","), m.group(2)))
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    seeds[os.path.basename(os.path.dirname(d))] = json.load(open(d))


def wrap(s):
    return " ".join(s.split())


def section(p):
    i = p["id"]
    out = ["### %s. %s" % (i, p["title"]), "", wrap(p["statement"]), ""]
    out.append("*Quantifies over* %s. *Why tests cannot settle it:* %s" % (p["quantifier"]["text"].rstrip("."), wrap(p["why_tests_cant"])))
    out.append("")
    src = open(V + "/analysis/checks/%s.py" % i.lower()).read()
    t = ast.parse(src)
    doc = ast.get_docstring(t) or ""
    ass = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    out.append("*Decided by* %s." % tech[i]["technique"].rstrip("."))
    out.append(wrap(doc))
    c = tech[i].get("level_note", "")
    if c:
        out.append("*Covers:* " + wrap(c))
    if ass:
        out.append("")
        out.append("*Assumes:* " + " ".join(wrap(a) for a in ass))
    b = sum(1 for m in muts if i in m[0] and m[1] == "bad")
    o = sum(1 for m in muts if i in m[0] and m[1] == "ok")
    s = ", ".join("`%s`" % k for k, v in seeds.items() if v["property"] == i)
    out.append("")
    out.append("*Tried with* %d breaking and %d behaviour-preserving small changes%s. Anchors: %s." % (
        b, o, ("; planted: " + s) if s else "", "; ".join("%s (%s)" % (a["name"], a["where"]) for a in p["anchors"]["mechanism"])))
    out.append("")
    return "\n".join(out)


head = open(HERE + "/design_head.md").read()
claimed = [p for p in props if p["id"] in tech]
fx = "\n".join("- **%s** (%s%s): %s" % (k["property"], k["status"], " " + k["commit"] if "commit" in k else "",
                                        re.sub(r"^fixed: property=\S+ \S+ ", "", k["what"])) for k in sorted(known, key=lambda k: k["property"]))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse", "27e0fe5..HEAD"], capture_output=True, text=True).stdout.splitlines()
rec = {k.get("commit") for k in known}
other = "; ".join("%s (%s)" % (l.split(" ", 1)[1].replace("fix: ", ""), l.split()[0]) for l in log if l.split()[0] not in rec) or "none"
try:
    caught = json.load(open(HERE + "/caught.json"))
except OSError:
    caught = {}
sd = "\n".join(["| Planted bug | Property | What it needs | Caught by |", "|---|---|---|---|"] + ["| `%s` | %s | %s | %s |" % (
    k, v["property"], wrap(v["needs"] if isinstance(v["needs"], str) else "; ".join(v["needs"])), caught.get(k, v["property"])) for k, v in seeds.items()])
nas = man.get("not_applicable", [])
na = "\n".join("- **%s** %s" % (n["property"], n["reason"]) for n in nas) or "No listed property is left unclaimed."
s = head.replace("@FINDINGS@", fx).replace("@OTHERFIXES@", other).replace("@SEEDS@", sd).replace("@MUTBAD@", str(sum(m[1] == "bad" for m in muts)))
s = s.replace("@MUTOK@", str(sum(m[1] == "ok" for m in muts))).replace("@PROPS@", "\n".join(section(p) for p in claimed)).replace("@NA@", na)
open(V + "/DESIGN.md", "w").write(s)
print(len(s), "bytes,", len(claimed), "properties")
