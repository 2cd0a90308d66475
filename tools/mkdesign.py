#!/usr/bin/env python3
"""Writes DESIGN.md from the prose in tools/design.md and from properties.jsonl, the check modules,
known_findings.json, seeded/*/meta.json and tools/caught.json."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path(*a):
    return os.path.join(HERE, *a)


notes, prose, cur = {}, [], None
for line in open(path("tools", "design.md")):
    if line.startswith("@@"):
        cur = line[2:].strip()
        notes[cur] = []
    elif cur:
        notes[cur].append(line)
    else:
        prose.append(line)
notes = {k: "".join(v).strip() for k, v in notes.items()}

props = [json.loads(l) for l in open(path("properties.jsonl"))]
findings = json.load(open(path("known_findings.json")))
caught = json.load(open(path("tools", "caught.json")))
metas = {}
for d in sorted(os.listdir(path("seeded"))):
    metas[d] = json.load(open(path("seeded", d, "meta.json")))

out = ["".join(prose).rstrip(), "", "## The properties one by one", ""]
for p in props:
    i = p["id"]
    ns, subs = {}, []
    tree = ast.parse(open(path("props", i.lower() + ".py")).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE",):
            ns["RULE"] = ast.literal_eval(node.value)
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("Search", "Enum"):
            try:
                n = ast.literal_eval(node.args[0])
            except ValueError:
                continue
            q = [ast.unparse(a) for a in node.args[3:4]] if node.func.id == "Search" else []
            subs.append((node.lineno, "`%s` (%s)" % (n, "generated" + (", %s cases quick" % q[0] if q else "") if node.func.id == "Search" else "enumerated")))
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["- *Cases and oracle.* %s" % ns["RULE"]]
    out += ["- *Subtests.* %s." % ", ".join(s for _, s in sorted(subs))]
    if i in notes:
        out += [notes[i]]
    out += ["- *Why tests cannot.* %s" % p["why_tests_cant"]]
    mine = [b for b in metas if metas[b]["property"] == i]
    if mine:
        out += ["- *Planted changes.* %s." % ", ".join("%s (%s)" % (b, caught.get(b, "not run")) for b in mine)]
    out += [""]

out += ["## Known findings (recorded, not repaired)", ""]
for k in findings["known"]:
    out += ["- **%s** (%s): %s" % (k["id"], k["property"], k["what"])]
out += ["", "## Repaired defects", "", "One `fix:` commit in /repo each; the check of the property fails on the tree before the commit.", "", "| property | commit | what failed |", "|---|---|---|"]
for f in findings["fixed"]:
    _, prop, commit, what = f.split(" ", 3)
    out += ["| %s | %s | %s |" % (prop.split("=")[1], commit, what)]
out += ["", "## Planted changes: which check catches which", "",
        "Each lives in `seeded/<id>/`; \"caught\" is the outcome of the quick check of its property (seed 1).", "",
        "| change | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]


def cell(s):
    return str(s).replace("|", "/").replace("\n", " ")


for b in sorted(metas):
    m = metas[b]
    out += ["| %s | %s | %s | %s | %s |" % (b, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), caught.get(b, "not run"))]
with open(path("DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
