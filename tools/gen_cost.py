#!/usr/bin/env python3
"""Writes tools/cost.json from a log of summary lines ("Cxx quick: …") given as argument."""
import json, re, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cost.json')
c = json.load(open(p)) if os.path.exists(p) else {}
for l in open(sys.argv[1]):
    m = re.match(r'(C\d+) (quick|thorough): (\d+) harnesses, (\d+) paths, (\d+) solver queries \(([\d.]+)s\).*?([\d.]+)s$', l.strip())
    if m:
        d = c.setdefault(m[1], {}) if isinstance(c.get(m[1], {}), dict) else {}
        d[m[2]] = f"{m[4]} paths, {m[5]} solver queries ({float(m[6]):.0f} s of solver time), {float(m[7]):.0f} s on 8 cores"
        c[m[1]] = d
json.dump(c, open(p, 'w'), indent=1, sort_keys=True)
