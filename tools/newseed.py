#!/usr/bin/env python3
"""tools/newseed.py ID PROPERTY NEEDS BREAKS < edits(json: [[file, old, new], ...]): writes patch.diff and meta.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import seed
seed.W = "/tmp/wn"
i, prop, needs, breaks = sys.argv[1:5]
seed.sync()
for f, old, new in json.load(sys.stdin):
    p = f"{seed.W}/{f if f.startswith("include") else "source/himalaya/" + f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
d = f"{V}/seeded/{i}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", seed.W, "diff"], text=True, stdout=subprocess.PIPE).stdout)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
seed.sync()
