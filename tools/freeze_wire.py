#!/usr/bin/env python3
"""Writes spec/wire.json: the layouts of the writers of the current tree.
Run by hand when the format is meant to change; no check runs it."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.setrecursionlimit(20000)
import build, mir, codec, grammar

out = {}
for cfg in ("main", "tycho"):
    codec.init(mir.Prog(build.dump(cfg)))
    codec.refful()
    d = {}
    for nm in sorted(codec.SI):
        ws, cut = grammar.words(nm)
        d[nm] = sorted(grammar.compact(w) for w in ws)
    out[cfg] = d
out["tycho"] = {k: v for k, v in out["tycho"].items() if out["main"].get(k) != v}
rd = {}
for cfg in ("main", "tycho"):
    codec.init(mir.Prog(build.dump(cfg)))
    codec.refful()
    rd[cfg] = {nm: sorted(grammar.compact(w) for w in grammar.rwords_best(nm)[0]) for nm in sorted(codec.LI)}
rd["tycho"] = {k: v for k, v in rd["tycho"].items() if rd["main"].get(k) != v}
with open(os.path.join(ROOT, "spec", "read.json"), "w") as f:
    json.dump(rd, f, indent=1, sort_keys=True)
    f.write("\n")
with open(os.path.join(ROOT, "spec", "wire.json"), "w") as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write("\n")
