#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (properties, findings, planted bugs)."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(pid):
    out = {}
    with open(os.path.join(ROOT, "checks", "props", pid.lower() + ".py")) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "ASSUMPTIONS", "CASES"):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def properties():
    manifest = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
    out = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        c, m = constants(p["id"]), manifest[p["id"]]
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* Decided by: %s." % m["technique"])
        out.append("* Oracle: %s" % m["level_note"])
        out.append("* Generated and judged: %s." % c["RULE"])
        out.append("* Bounds: %d cases (quick), %d (thorough)%s." % (c["CASES"]["quick"], c["CASES"]["thorough"], "; assumed: " + "; ".join(c["ASSUMPTIONS"]) if c.get("ASSUMPTIONS") else ""))
        out.append("* Beyond the tests: %s\n" % p["why_tests_cant"])
    return "\n".join(out)


def findings():
    known, fixed = [], []
    for line in open(os.path.join(ROOT, "known_findings.jsonl")):
        f = json.loads(line)
        if f["status"] == "known":
            known.append("* %s (`%s`): %s." % (f["property"], f["case"], f["what"]))
        else:
            fixed.append("* " + f["what"][len("fixed: "):])
    return "Recorded, not repaired:\n\n%s\n\nRepaired (\"fix:\" commits in /repo):\n\n%s\n" % ("\n".join(known), "\n".join(fixed))


def planted():
    caught = {}
    path = os.path.join(ROOT, "tools", "catches.json")
    if os.path.isfile(path):
        caught = json.load(open(path))
    out = ["| planted bug | property | needs | result of the quick check |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for bug in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, bug, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (bug, m["property"], m["needs"].replace("|", "/"), caught.get(bug, "?")))
    return "\n".join(out) + "\n"


def main():
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    for name, fn in (("properties", properties), ("findings", findings), ("planted", planted)):
        a, b = "<!-- begin %s -->\n" % name, "<!-- end %s -->" % name
        s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + fn() + b, s, flags=re.S)
    open(path, "w").write(s)


if __name__ == "__main__":
    main()
