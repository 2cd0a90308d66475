#!/opt/venv/bin/python
"""Generates fixtures/ec_special.json: scalars whose public coordinates or
x-coordinate have leading zero bytes (run once; committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import ref
out = {}
for name, c in ref.CURVES.items():
    found = {"x": [], "y": [], "x2": [], "y2": []}
    pt = c.point(*c.G); g = c.point(*c.G)
    d = 1
    top = 8 * (c.size - 1) if name != "P-521" else 8 * (c.size - 2) + 1
    while d < 200000 and (len(found["x2"]) < 1 or len(found["y2"]) < 1 or len(found["x"]) < 4 or len(found["y"]) < 4):
        x, y = int(pt.x), int(pt.y)
        lim = 8 * (c.size - 1)
        if name == "P-521":
            lim -= 8
        if x < 1 << (lim - 8) and len(found["x2"]) < 2: found["x2"].append(d)
        if y < 1 << (lim - 8) and len(found["y2"]) < 2: found["y2"].append(d)
        if x < 1 << lim and len(found["x"]) < 4: found["x"].append(d)
        if y < 1 << lim and len(found["y"]) < 4: found["y"].append(d)
        pt = pt + g
        d += 1
    out[name] = sorted(set(sum(found.values(), [])))
    print(name, found)
json.dump(out, open(os.path.join(HERE, "fixtures", "ec_special.json"), "w"))
