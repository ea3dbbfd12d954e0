#!/usr/bin/env python3
"""corrupt.py [executions]: spoils recorded executions in one place each and says how many TLC still accepts."""
import collections
import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import build   # noqa: E402
import pool    # noqa: E402
import props   # noqa: E402
import tlc     # noqa: E402

N = int(sys.argv[1]) if len(sys.argv) > 1 else 60
rng = random.Random(1)
SETS = [("node", [f for p in ("C01", "C05", "C06", "C07", "C08", "C09") for f in props.NODE[p]]), ("client", props.CLIENT["C11"] + props.CLIENT["C12"]),
        ("options", props.CLI["C13"][0]), ("addresses", props.ADDR["C22"][1]), ("kernel", props.KERNEL["C24"])]


def other(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice((1, 1, 5000, -1))
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, list) and v:
        v = copy.deepcopy(v)
        i = rng.randrange(len(v))
        if rng.random() < .3:
            v.pop(i)
        else:
            v[i] = other(v[i])
        return v
    if isinstance(v, dict) and v:
        v = dict(v)
        k = rng.choice(sorted(v))
        v[k] = other(v[k])
        return v
    return None


def spoil(t):
    """(what was done, the spoilt execution)"""
    ev = copy.deepcopy(t["ev"])
    how = rng.choice(("field", "field", "field", "drop", "twice"))
    i = rng.randrange(len(ev))
    if how == "drop":
        x = ev.pop(i)
        what = "drop " + x["e"]
    elif how == "twice":
        ev.insert(i, ev[i])
        what = "twice " + ev[i]["e"]
    else:
        ks = [k for k in ev[i] if k not in ("e", "peer", "raw", "hex", "side")]
        if not ks:
            return None
        k = rng.choice(ks)
        v = other(ev[i][k])
        if v is None:
            return None
        ev[i][k] = v
        what = "%s.%s" % (ev[i]["e"], k)
    return what, {"cfg": t["cfg"], "ev": ev}


b = build.Build()
b.program("dw_node")
b.program("dw_client")
p = pool.Pool(b)
try:
    for name, fams in SETS:
        res, _ = p.run([(f.fn, (rng.randrange(1 << 40), f.opts)) for f in (rng.choice(fams) for _ in range(N))])
        mod = fams[0].module
        tr = [t for _, t in res if t and t["ev"]]
        v, _, _ = tlc.validate(tr, mod)
        tr = [t for t, (ok, _) in zip(tr, v) if ok]
        bad = [x for x in (spoil(t) for t in tr for _ in range(8)) if x]
        v, _, _ = tlc.validate([t for _, t in bad], mod)
        n, acc = collections.Counter(), collections.Counter()
        for (what, _), (ok, _) in zip(bad, v):
            n[what] += 1
            acc[what] += ok is True
        print("%s: %d of %d spoilt executions rejected" % (name, sum(n.values()) - sum(acc.values()), sum(n.values())))
        for w in sorted(n):
            if acc[w]:
                print("    accepted: %-16s %d of %d" % (w, acc[w], n[w]))
finally:
    p.close()
    b.close()
