#!/usr/bin/env python3
"""Writes DESIGN.md from the text below, the checks table, the properties, the
evidence of the last quick run, known_findings.txt and seeded/*/meta.json."""
import json, os, sys, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
TEXT = open(ROOT + "/tools/design.txt").read()
parts = dict(re.findall(r"^== (\w+)\n(.*?)(?=^== |\Z)", TEXT, re.S | re.M))
out = [parts["head"].strip(), ""]
out += ["## The properties, one by one", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in NOT_APPLICABLE:
        out += ["Not applicable. " + NOT_APPLICABLE[i], ""]
        continue
    out += [parts.get(i, "").strip(), ""]
    f = ROOT + "/evidence/%s.json" % i
    old = {}
    g = ROOT + "/tools/spaces.json"
    if os.path.exists(g): old = json.load(open(g))
    if os.path.exists(f):
        e = json.load(open(f))
        if e.get("tier") == "quick":
            old[i] = {k: [v["cases"], v.get("rule", "")] for k, v in e["coverage"]["spaces"].items()}
            json.dump(old, open(g, "w"), indent=1, sort_keys=True)
    for k, (n, r) in old.get(i, {}).items(): out.append("* `%s` (%s cases quick): %s." % (k, n, r))
    out += ["", "Not covered, trusted: " + CHECKS[i]["note"], ""]
out += [parts["mid"].strip(), ""]
out += ["## Defects found and repaired", "", "Each is a `fix:` commit in /repo, listed in known_findings.txt as fixed; the check of the property reports it when the commit is reverted.", ""]
for l in open(ROOT + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: out.append("* %s (%s) %s" % (m[1], m[2], m[3]))
    elif l.startswith("finding:"): out.append("* not repaired: " + l.strip())
out += ["", "## Planted changes", "", "| change | property | needs | caught |", "|---|---|---|---|"]
caught = dict(re.findall(r"^(\S+)\s+(.*)$", parts.get("caught", ""), re.M))
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "not tried")))
out += ["", parts.get("tail", "").strip(), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
