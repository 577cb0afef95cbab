#!/usr/bin/env python3
"""Writes vsa/expected.json: which checked conditions each client root reaches on the current tree. Refuses if anything is violated or undecided."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vsa"))
os.environ.setdefault("VERIF_TIER", "thorough")
import common, sem

b = common.Build()
exp, bad = {}, 0
only = sys.argv[1:]
if only:
    exp = sem.expected()
tot = {}
for root, rows, paths, steps, fns, reached, dt in sem.analyse(b, only or sem.sources(), lambda r: True):
    short = root.split("::")[-1]
    if short in exp and not only:
        print("DUPLICATE ROOT", short); bad += 1
    tags = set()
    if not any(r[0] == "panics" for r in rows):
        tags.add("calm")
    for kind, site, ok, bd, und in rows:
        if kind == "panics":
            continue
        if bd or und:
            bad += 1
            print(short, kind, site, "BAD" if bd else "UND", (bd or und)[:1500])
        if kind.startswith("check:"):
            tags.add(kind)
    if "calm" not in tags:
        # A panic path that only looks possible must not count as having reached anything.
        tags.discard("check:c05 destroyed with its own layout")
    exp[short] = sorted(tags)
    if dt > 10:
        print("slow", short, dt)
    for p in sem.root_props(short):
        tot[p] = tot.get(p, 0) + 1
print(tot, "problems", bad)
with open(os.path.join(common.VERIF, "vsa", "expected.json"), "w") as f:
    json.dump(exp, f, indent=0, sort_keys=True)
sys.exit(1 if bad else 0)
