"""Gives addresses to the real programs and records which ones they use; nothing is bound or connected to for real."""
import json
import os
import random
import re
import subprocess
import time

import client
import scratch
import shm as S
import tlc

SCRIPT = re.compile(r'^<<"SCRIPT", "(.*)">>$', re.M)
HOSTS = {"127.0.0.1": "127.0.0.1", "10.0.0.200": "10.0.0.200", "255.255.255.254": "255.255.255.254", "0.0.0.0": "0.0.0.0",
         "localhost": "127.0.0.1", "a": "10.1.2.3", "udpserver": "10.1.2.4", "tcp4.lan": "10.1.2.5", "udp": "10.1.2.6", "tcp": "10.1.2.7",
         "udp-1": "172.16.0.1", "mytcp": "172.16.0.2", "7host": "172.16.0.3", "n.udp": "200.1.1.1", "tcpudp": "172.16.0.5",
         "a-long-name.example": "129.0.0.1", "longer-name.example.org": "172.16.0.4"}
UNKNOWN = ["nowhere"]
PORTS = [1, 80, 7890, 7891, 32767, 32768, 65535]


def texts(ports=PORTS):
    """every address over the hosts and ports, and what it took to find them"""
    d = scratch.make("gen")
    f = os.path.join(d, "given.json")
    with open(f, "w") as h:
        json.dump({"hosts": HOSTS, "unknown": UNKNOWN, "ports": ports}, h)
    try:
        ok, st, tr, out = tlc.model_check("DWAddrGen", "DWAddrGen.cfg", workers=1, timeout=300, DW_GEN=f)
    finally:
        scratch.drop(d)
    if not ok:
        raise tlc.TLCError(out[-3000:])
    return [json.loads(x.replace('\\"', '"')) for x in SCRIPT.findall(out)], st, tr


def text(a):
    return a["pr"] + a["sep"] + a["host"] + ("" if a["port"] < 0 else ":%d" % a["port"])


def env(d, shm, **kw):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d, "DWSHIM_HOSTS": ",".join("%s=%s" % x for x in HOSTS.items())}
    e.update(shm.env())
    e.update(kw)
    return e


def launch(ctx, exe, args, loops, seed):
    """runs a program that neither binds nor connects: records, is it up, exit code"""
    d = scratch.make("addr", True)
    shm = S.Shm(os.path.join(d, "shm"), 1 << 20)
    p = None
    try:
        shm.set("standin", 1)
        shm.set("rng", seed & 0x7FFFFFFFFFFFFFFF)
        with open(os.path.join(d, "err"), "wb") as err:
            p = subprocess.Popen([ctx.exe(exe)] + args, env=env(d, shm, **({} if loops else {"DWSHIM_CLOCK": "1"})), cwd=d,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, pass_fds=[shm.child.fileno()])
        end = time.time() + 20
        up = False
        while p.poll() is None and time.time() < end:
            th = shm.threads()
            if loops and len(th) >= loops and all(s in (2, 3, 4) for _, s, _ in th):
                up = True
                break
            time.sleep(0.001)
        code = p.returncode
        if code is None:
            p.kill()
            p.wait()
        return shm.records(), up, 0 if code is None else code
    finally:
        shm.close()
        scratch.drop(d)


def use(i, r):
    ip, port = S.addr(r.a).split(":")
    return {"e": "use", "i": i, "pr": "udp" if r.kind == 4 else "tcp", "ip": ip, "port": int(port)}


def trace(args, adrs, anyp, ev, up, code):
    return {"cfg": {"as": adrs, "any": anyp, "hosts": HOSTS}, "ev": ev + [{"e": "end", "up": up, "code": code}], "argv": args}


DEFAULT = {"pr": "", "sep": "", "host": "", "port": -1}
NOBIND = {"pr": "", "sep": "", "host": "0.0.0.0", "port": 0}


def to(ctx, seed, a, b=None, nt=1):
    """a client with that target and that address of its own"""
    args = (["--to=" + text(a)] if a else []) + (["-b" + text(b)] if b else []) + (["--nt=%d" % nt] if nt > 1 else []) + ["-n%d" % nt]
    recs, up, code = launch(ctx, "dw_client", args, 0, seed)
    ev = [use(1 if r.type == S.CONNECT else 2, r) for r in recs if r.type in (S.CONNECT, S.BIND)]
    return trace(args, [a or DEFAULT, b or NOBIND], [False, True], ev, up, code)


def node(ctx, seed, a, nt=1, mode=None):
    args = ["-s", ""] + (["-b", text(a)] if a else []) + (["--nt=%d" % nt] if nt > 1 else []) + (["-a", mode] if mode else [])
    recs, up, code = launch(ctx, "dw_node", args, nt, seed)
    return trace(args, [a or DEFAULT], [False], [use(1, r) for r in recs if r.type == S.BIND], up, code)


def forward(ctx, seed, l, extra=()):
    """a request to be forwarded to those targets"""
    w = ctx.wire()
    parts = [text(a) for a in l]
    for i, x in extra:
        parts.insert(i, x)
    args = ["-F" + ",".join(parts)]
    r = client.ClientRun(ctx.exe("dw_client"), w, ctx.ip(), args, {}, seed, hosts=HOSTS)
    try:
        while r.quiet():
            for c in list(r.conns.values()):
                while c.todo:
                    r.reply(c, c.todo.pop(0))
            if r.sleeping:
                r.tick(min(r.sleeping.values()))
        ev = []
        for m in r.raw:
            n = 0
            for o in w.decode_chain(m) or []:
                if o["op"] in "FM":
                    n += 1
                    ip, port = o["t"].split(":")
                    ev.append({"e": "use", "i": n, "pr": o["pr"], "ip": ip, "port": int(port)})
        up = r.p.poll() is None
        return trace(args, l, [False] * len(l), ev, up, 0 if up else r.p.returncode)
    finally:
        r.cleanup()


def one(ctx, seed, item):
    site, a = item
    return {"to": to, "node": node, "fwd": lambda c, s, x: forward(c, s, [x])}[site](ctx, seed, a)


def pick(rng, own=False):
    while True:
        pr = "" if own else rng.choice(("", "", "tcp", "udp"))
        a = {"pr": pr, "sep": rng.choice((":", "://")) if pr else "",
             "host": rng.choice(("", "", "x") + tuple(HOSTS)) if rng.random() < .98 else rng.choice(UNKNOWN),
             "port": rng.choice((0, rng.randint(1, 65535))) if own else rng.choice((-1, rng.randint(1, 65535)))}
        if a["host"] == "x":
            a["host"] = rng.choice(list(HOSTS))
        t = text(a)
        if 0 < len(t) < 31 and "::" not in t.replace("://", "") and not (a["sep"] == ":" and not a["host"] and a["port"] >= 0) \
                and not (not pr and a["host"] in ("tcp", "udp")):
            return a


def scenario(ctx, seed, o):
    rng = random.Random(seed)
    site = rng.choice(o.get("sites", ("to", "fwd", "fwd", "node")))
    if site == "to":
        return to(ctx, seed, pick(rng) if rng.random() < .8 else None, pick(rng, True) if rng.random() < .7 else None, rng.choice((1, 1, 2, 3)))
    if site == "node":
        return node(ctx, seed, pick(rng) if rng.random() < .95 else None, rng.choice((1, 2, 4)), rng.choice((None, "child", "parent", "shared")))
    l = [pick(rng) for _ in range(rng.choice((1, 2, 2, 3, 5)))]
    extra = []
    if rng.random() < .4:
        extra.append((rng.randint(1, len(l)), "timeout=%d" % rng.randint(1, 1000000)))
    if rng.random() < .4:
        extra.append((rng.randint(1, len(l)), "retry=%d" % rng.randint(0, 9)))
    return forward(ctx, seed, l, extra)
