#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property from table.py and the obligations, tail."""
import os, re, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import json
props = {d["id"]: d for d in map(json.loads, open(f"{V}/properties.jsonl"))}
man = json.load(open(f"{V}/MANIFEST.json"))
out = open(f"{H}/design_head.md").read().rstrip() + "\n\n"
oracle = json.load(open(f"{H}/oracles.json"))
for pid in sorted(props):
    f = f"{V}/hl/src/props/{pid.lower()}.rs"
    out += f"### {pid} {props[pid]['title']}\n\n"
    if not os.path.exists(f):
        out += "Not applicable: " + [n["reason"] for n in man["not_applicable"] if n.get("property", n.get("id")) == pid][0] + "\n\n"
        continue
    out += oracle[pid] + "\n\n"
    t = open(f).read(); t = t[t.index("obligations! {"):]
    for m in re.finditer(r'(?m)^    (\w+), (proved|bounded|deep|standin), "([^"]*)", "([^"]*)"', t):
        n, l, b, fn = m.groups()
        l = {"proved": "proved for all inputs", "deep": "proved for all inputs (thorough tier)", "bounded": f"verified within a bound: {b}", "standin": f"stand-in: {b}"}[l]
        out += f"* `{n}` – {l}. Functions: {fn}.\n"
    out += "\n"
out += open(f"{H}/design_tail.md").read()
open(f"{V}/DESIGN.md", "w").write(out)
