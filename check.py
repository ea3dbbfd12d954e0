#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree."""
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import engine  # noqa: E402
import props   # noqa: E402


def models(c, pid, t):
    for mod, cfgs, note in props.MODELS.get(pid, ()):
        if cfgs[t]:
            c.model_check(mod, cfgs[t], note)


def node(c, pid):
    c.programs("dw_node")
    t = int(c.tier == "thorough")
    models(c, pid, t)
    uses = props.gen.USES.get(pid, ())
    for u in uses:
        c.generated(props.gen, u, t, (16, 150)[t] / len(uses))
    if not c.violations:
        c.explore(props.NODE[pid], ((28 if uses else 40), (280 if uses else 420))[t])


def client(c, pid):
    c.programs("dw_client")
    models(c, pid, int(c.tier == "thorough"))
    c.explore(props.CLIENT[pid], 35 if c.tier == "quick" else 420)


def cli(c, pid):
    c.programs("dw_client")
    fams, words, alpha, upto = props.CLI[pid]
    t = int(c.tier == "thorough")
    c.known(props.KNOWN)
    c.enumerate(words, props.cli.words(alpha[t], upto[t]), (60, 400)[t])
    if not c.violations:
        c.explore(fams, (20, 200)[t])


def unit(c, pid):
    c.programs()
    c.b.unit("unit", "unit.c")
    t = int(c.tier == "thorough")
    enums, fams = props.UNIT[pid]
    for e in enums:
        c.enumerate(e[0], e[1 + t](), (60, 300)[t])
    if not c.violations:
        c.explore(fams, (10, 60)[t], chunk=4)


def numbers(c, pid):
    c.programs("dw_client")
    c.explore(props.DIST[pid], 25 if c.tier == "quick" else 300)


def pinning(c, pid):
    c.programs("dw_node")
    t = int(c.tier == "thorough")
    enum, fams = props.AFF[pid]
    c.least = 3
    c.enumerate(enum[0], enum[1 + t](), (40, 200)[t])
    if not c.violations:
        c.explore(fams, (10, 60)[t], chunk=4)


def addresses(c, pid):
    c.programs("dw_client", "dw_node")
    t = int(c.tier == "thorough")
    f, fams = props.ADDR[pid]
    c.least = 1
    l, st, tr = props.addr.texts()
    c.states += st
    c.transitions += tr
    c.extra["generated"] = len(l)
    items = [(s, x["a"]) for x in l for s in ("to", "fwd", "node")]
    random.Random(c.seed).shuffle(items)
    c.enumerate(f, items, (60, 300)[t])
    if not c.violations:
        c.explore(fams, (12, 100)[t], chunk=4)


def options(c, pid):
    c.programs("dw_node", "dw_client")
    c.least = 6
    c.explore(props.KERNEL[pid], (20, 200)[int(c.tier == "thorough")], chunk=7)


def together(c, pid):
    c.programs("dw_node", "dw_client")
    t = int(c.tier == "thorough")
    models(c, pid, t)
    (f, alpha, upto), fams = props.SYSTEM[pid]
    items = list(props.system.words(alpha[t], upto[t]))
    random.Random(c.seed).shuffle(items)
    c.enumerate(f, items, (40, 200)[t])
    if not c.violations:
        c.explore(fams, (25, 300)[t], chunk=6)


KINDS = ((props.NODE, node), (props.CLIENT, client), (props.CLI, cli), (props.UNIT, unit), (props.DIST, numbers), (props.AFF, pinning),
         (props.ADDR, addresses), (props.KERNEL, options), (props.SYSTEM, together))


def main():
    pid = sys.argv[1]
    c = engine.Check(pid)
    try:
        run = [f for d, f in KINDS if pid in d]
        if not run:
            print("no such check: " + pid, file=sys.stderr)
            return 2
        run[0](c, pid)
        return c.report()
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
