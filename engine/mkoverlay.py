#!/usr/bin/env python3
"""Write the overlay for `go build`: the deterministic runtime plus the
simulator's sources as virtual packages under /repo/zzverif."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import goruntime

def overlay(out, repo="/repo"):
    m = dict(goruntime.generate(os.path.join(out, "rt")))
    src = os.path.join(os.path.dirname(HERE), "sim")
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), src)
                m[os.path.join(repo, "zzverif", rel)] = os.path.join(d, f)
    p = os.path.join(out, "overlay.json")
    with open(p, "w") as fh:
        json.dump({"Replace": m}, fh)
    return p

if __name__ == "__main__":
    print(overlay(sys.argv[1]))
