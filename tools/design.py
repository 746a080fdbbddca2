#!/usr/bin/env python3
"""Rewrites the table of checks in DESIGN.md from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in CHECKS:
        out.append(f"Not applicable: {NOT_APPLICABLE.get(i, '')}\n"); continue
    c = CHECKS[i]
    out.append(f"Harness `harness/src/` feature `{'`, `'.join(c['features'])}`; quick: {', '.join(c['quick'])}; thorough adds: {', '.join(c.get('thorough', [])) or '-'}.\n")
    out.append(f"Bounds: {c['bounds']}.\n")
    if c.get("oracle"): out.append(f"Oracle: {c['oracle']}\n")
    if c.get("note"): out.append(f"Note: {c['note']}\n")
s = open(f"{V}/DESIGN.md").read()
a, b = "<!-- checks -->\n", "<!-- end of checks -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(f"{V}/DESIGN.md", "w").write(s)
