"""golden argument lists of the C++ functions under contract (run once, on the
tree the contracts were written for)"""
import json, os, cxx
out = {}
for d in (2, 3):
    u, e = cxx.load(d)
    print(d, len(u), len(e))
    out[str(d)] = {n: [x.srcfile, list(x.args), cxx.meta(x)] for n, x in sorted(u.items())}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'csigs.json'), 'w'), indent=1)
