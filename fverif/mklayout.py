"""Writes layout.json: for every kernel, the bounds of each array argument as
its callers allocate it (in terms of the scalar arguments).  Generated once
from the reviewed tree; the checks compare the current declarations with it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sym, build, contract
from vc import Engine, Frame


def ser(p):
    if p is None:
        return None
    out = []
    for m, c in p.t.items():
        mm = []
        for a, e in m:
            at = sym.atom(a)
            if at.kind != 'v':
                raise ValueError
            mm.append([at.args[0], int(e)])
        out.append([str(c), mm])
    return sorted(out)


def main():
    out = {}
    for d in (2, 3):
        units, _, e = build.load(d, None)
        o = out[str(d)] = {}
        for name, u in sorted(units.items()):
            try:
                sig = contract.SIGS[str(d)][name][1]
            except KeyError:
                continue
            if len(sig) != len(u.args):
                continue
            E = Engine(units)
            E.argmap = dict(zip(u.args, sig))
            fr = Frame(u)
            for cn, n in zip(u.args, sig):
                if u.vars[cn].dims is None or u.vars[cn].type == 'S':
                    continue
                try:
                    o.setdefault(name, {})[n] = [[ser(a), ser(b)] for a, b in E.dims(fr, cn)]
                except Exception as ex:
                    print(d, name, n, ex)
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json'), 'w'), sort_keys=True)


main()
