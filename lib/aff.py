"""Starts real nodes with core lists on machines with a made-up number of cores and records what they pin where."""
import itertools
import os
import random
import re
import struct

import node
import shm as S


def start(ctx, seed, items, text, ncpu, nt, sto, accept=None):
    args = ["--thread-affinity=" + text] if text is not None else []
    cfg = {"list": items, "ncpu": ncpu, "nt": nt, "sto": sto}
    try:
        n = node.Node(ctx.exe("dw_node"), ctx.wire(), ctx.ip(), args, nt=nt, storage=sto, logsz=1 << 20, ncpu=ncpu, seed=seed,
                      accept=accept)
    except node.Died as d:
        return {"cfg": cfg, "ev": d.trace["ev"], "argv": args}
    try:
        # who is who: threads are named, or else known by the order they were made in
        d = "/proc/%d/task" % n.p.pid
        names = {}
        for t in os.listdir(d):
            with open("%s/%s/comm" % (d, t)) as f:
                names[int(t)] = f.read().strip()
        ev = []
        recs = [r for r in n.shm.records() if r.type == S.AFF]
        for r in recs:
            tid = struct.unpack("<i", r.data[:4])[0]
            m = re.match(r"connw-(\d+)$", names.get(tid, ""))
            who = int(m.group(1)) if m else nt if names.get(tid) == "storagew" else -1
            mask = (r.a & (2 ** 64 - 1)) | (r.b & (2 ** 64 - 1)) << 64
            ev.append({"e": "pin", "who": who, "cores": [i for i in range(128) if mask >> i & 1]})
        ev.append({"e": "up"})
        return {"cfg": cfg, "ev": ev, "argv": n.argv}
    finally:
        n.cleanup()


def write(e, rng=None):
    a, b, s = e["a"], e["b"], e["s"]
    if a == b and (not rng or rng.random() < .8):
        return "%d" % a
    if s == 1:
        if rng and rng.random() < .15:
            return "%d-%d" % (b, a)
        if not rng or rng.random() < .7:
            return "%d-%d" % (a, b)
    return "%d-%d:%d" % (a, b, s)


def scenario(ctx, seed, o):
    rng = random.Random(seed)
    ncpu = rng.choice(o.get("ncpu", (1, 2, 3, 4, 8, 8, 16, 64, 100, 128)))
    nt = rng.choice(o.get("nt", (1, 1, 2, 3, 4, 6)))
    if rng.random() < .05:
        return start(ctx, seed, [{"a": 0, "b": ncpu - 1, "s": 1}], "auto", ncpu, nt, rng.random() < .5)
    if rng.random() < .03:
        return start(ctx, seed, [], None, ncpu, nt, rng.random() < .5)
    items = []
    for _ in range(rng.choice((1, 1, 2, 3, 6))):
        a = rng.randrange(ncpu)
        b = rng.choice((a, rng.randint(a, ncpu - 1), min(ncpu - 1, a + 1), ncpu - 1))
        items.append({"a": a, "b": b, "s": rng.choice((1, 1, 2, 3, 5, max(1, b - a), b - a + 1, b - a + 7))})
    return start(ctx, seed, items, ",".join(write(e, rng) for e in items), ncpu, nt, rng.random() < .6,
                 rng.choice((None, None, "child", "parent", "shared")))


def ranges(ncpu, nts):
    """every range with every step, alone and after a single core"""
    for a, b in itertools.combinations_with_replacement(range(ncpu), 2):
        for s in range(1, b - a + 2):
            for nt in nts:
                yield [{"a": a, "b": b, "s": s}], ncpu, nt
                yield [{"a": (a * 3 + 1) % ncpu, "b": (a * 3 + 1) % ncpu, "s": 1}, {"a": a, "b": b, "s": s}], ncpu, nt


def one(ctx, seed, item):
    items, ncpu, nt = item
    return start(ctx, seed, items, ",".join(write(e) for e in items), ncpu, nt, True)
