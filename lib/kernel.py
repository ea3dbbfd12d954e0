"""Runs the real programs with socket and scheduling options and records what the kernel is asked for."""
import random
import struct

import client
import node as N
import scen
import shm as S

ATTR = struct.Struct("<IIQiIQQQ")
POLICY = {0: "other", 1: "fifo", 2: "rr", 6: "dl"}
NONE = {"k": "", "a": 0, "b": 0}


def us(v):
    return v // 1000 if v % 1000 == 0 and v // 1000 < 1 << 31 else -1


def attrs(b):
    _, pol, _, nice, prio, run, dl, per = ATTR.unpack(b[:ATTR.size])
    return {"pol": POLICY.get(pol, "?"), "nice": nice, "prio": prio if prio < 1 << 31 else -1, "run": us(run), "dl": us(dl), "per": us(per)}


def policy(rng):
    """the option, what it is made of"""
    k = rng.choice(("", "other", "other", "rr", "fifo", "dl"))
    a, b = 0, 0
    if k == "other":
        a = rng.choice((0, -20, -1, 1, 19))
        t = "other" if a == 0 and rng.random() < .5 else "other:%d" % a
    elif k in ("rr", "fifo"):
        a = rng.choice((1, 2, 50, 99))
        t = "%s:%d" % (k, a)
    elif k == "dl":
        a, b = rng.choice((1, 500, 999, 1000000)), rng.choice((1000, 100000, 2000000))
        t = "dl:%d,%d" % (a, b)
    return (["--sched-policy=" + t] if k else []), {"k": k, "a": a, "b": b}


def nodelay(rng):
    nd = rng.choice((-1, 0, 0, 1))
    return ([] if nd < 0 else [rng.choice(("--no-delay=%d", "--nd=%d")) % nd]), nd


def server(ctx, seed, o):
    rng = random.Random(seed * 7 + 1)
    a1, pol = policy(rng)
    a2, nd = nodelay(rng)
    bl = rng.choice((-1, 1, 5, 6, 100, 4096))
    if 0 <= bl < 20:             # no more connections at once than that
        o = dict(o, batch=0, settle=1, clients=min(bl, 4))
    args = a1 + a2 + ([] if bl < 0 else [rng.choice(("--backlog-length=%d", "--bl=%d")) % bl])
    rng.shuffle(args)
    kw = dict(o.get("node", {}), args=args, watch=True)
    try:
        env = scen.Env(ctx, seed, dict(o, node=kw))
    except N.Died as x:
        return {"cfg": {"nd": nd, "bl": bl, "pol": pol, "lis": True}, "ev": x.trace["ev"], "argv": args}
    udp = env.n.proto == "udp"
    tr = env.run()
    ev = []
    for r in env.n.watched:
        if r.type == S.OPT:
            ev.append({"e": "send", "nd": r.a, "side": "in" if r.kind == 2 else "out"})
        elif r.type == S.SCHED:
            ev.append({"e": "sched", "w": r.tid, "at": attrs(r.data)})
        elif r.type == S.MARK and r.a == 1:
            ev.append({"e": "listen", "n": r.b})
        elif r.type == S.RECV and r.rv > 0:
            ev.append({"e": "serve", "w": r.tid})
    if tr["ev"] and tr["ev"][-1]["e"] == "died":
        ev.append(tr["ev"][-1])
    seen, new = [], []
    for e in ev:                 # the same again says nothing new
        if e["e"] == "sched":
            seen = []
        elif e in seen:
            continue
        seen.append(e)
        new.append(e)
    ev = new
    return {"cfg": {"nd": nd, "bl": bl, "pol": pol, "lis": not udp}, "ev": ev + [{"e": "end"}], "argv": env.n.argv}


def sender(ctx, seed, o):
    rng = random.Random(seed)
    args, nd = nodelay(rng)
    nt, ns = rng.choice((1, 1, 2, 3)), rng.choice((1, 2, 3))
    args += ["--nt=%d" % nt, "--ns=%d" % ns, "-n%d" % (ns * rng.choice((1, 2, 4)))]
    refuse = rng.random() < .5
    if refuse:
        args += ["--retry-num=1000", "--retry-period=200"]
    elif rng.random() < .3:
        args.append("--non-block")
    rng.shuffle(args)
    r = client.ClientRun(ctx.exe("dw_client"), ctx.wire(), ctx.ip(), args, {}, seed, listen=not refuse, watch=True)
    try:
        while r.quiet():
            if refuse and r.ls is None and rng.random() < .5:
                r.listen()
            elif refuse and r.ls is not None and rng.random() < .3:
                r.unlisten()
            for c in list(r.conns.values()):
                while c.todo:
                    r.reply(c, c.todo.pop(0))
            if r.sleeping:
                r.tick(min(r.sleeping.values()))
        ev = [{"e": "send", "nd": x.a, "side": "client"} for x in r.watched]
        if r.p.poll() is None or r.p.returncode != 0 or not ev:
            ev.append({"e": "died", "code": r.p.poll()})
        return {"cfg": {"nd": nd, "bl": -1, "pol": NONE, "lis": False}, "ev": ev + [{"e": "end"}], "argv": r.argv}
    finally:
        r.cleanup()
