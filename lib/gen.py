"""Environments generated by TLC from the specification of the node (DWNodeGen), replayed into the real one."""
import json
import os
import random
import re

import scratch
import tlc
from scen import Env
import node as N

UNIT = 10000         # us that one tick of the model stands for
BYTES = 1000         # bytes that one of the model stands for
SCRIPT = re.compile(r'^<<"SCRIPT", "(.*)">>$', re.M)


def F(t, to=0, rt=0, op="F"):
    return {"op": op, "t": t, "ps": 1, "to": to, "rt": rt, "sk": 1, "pr": "tcp"}


def M(ts, ack, to=0, rt=0):
    return [F(t, to, rt, "M") for t in ts] + [R(ack)]


def R(ack=1):
    return {"op": "R", "n": 1, "ack": ack}


def S(n, off=-1, sync=0):
    return {"op": "S", "n": n, "off": off, "sync": sync}


def L(n, off=-1):
    return {"op": "L", "n": n, "off": off}


C = {"op": "C", "us": 1}
CFG = {"max": 10, "period": 0, "odirect": 0, "slack": 0, "grain": 0, "nt": 1, "deal": False}


class Set:
    """what the environment may do: requests (chains without their final reply), connections, requests in all, kinds of steps"""

    def __init__(self, name, chains, conns, reqs, acts, length, **cfg):
        self.name, self.chains, self.length = name, [ch + [R()] for ch in chains], length
        self.given = {"chains": self.chains, "conns": conns, "reqs": reqs, "acts": ["connect"] + acts, "cfg": dict(CFG, **cfg)}

    def scripts(self, tier):
        """every sequence of steps of that length"""
        d = scratch.make("gen")
        f = os.path.join(d, "given.json")
        with open(f, "w") as h:
            json.dump(dict(self.given, len=self.length[tier]), h)
        try:
            ok, st, tr, out = tlc.model_check("DWNodeGen", "DWNodeGen.cfg", workers=1, mem="4g", timeout=300, DW_GEN=f)
        finally:
            scratch.drop(d)
        if not ok:
            raise tlc.TLCError(out[-3000:])
        return [json.loads(x.replace('\\"', '"')) for x in SCRIPT.findall(out)], st, tr


class Script(Env):
    def __init__(self, ctx, seed, s, steps):
        c = s.given["cfg"]
        ops = {x["op"] for ch in s.chains for x in ch}
        node = {"storage": bool(ops & {"S", "L"}), "max_storage": c["max"] * BYTES}
        if c["period"]:
            node["sync"] = c["period"] * UNIT // 1000
        Env.__init__(self, ctx, seed, dict(peers=3, node=node, recv_max=(0, 0, 0, 7), send_max=(0, 0, 0, 5), eagain=(0,), disk_short=(0, 0, 300)))
        self.set, self.script = s, steps

    def concrete(self, ch):
        w = self.n.w

        def one(i):
            x = dict(ch[i])
            if x["op"] == "R":
                x["n"] = self.rng.choice((64, 200, 3000))
            elif x["op"] in "SL":
                x["n"] *= BYTES
                x["off"] = x["off"] * BYTES if x["off"] >= 0 else -1
            elif x["op"] in "FM":
                x["t"] = self.peers[x["t"] - 1].t
                x["to"] *= UNIT
                x["ps"] = w.hdr + w.chain_len(ch[i:]) + self.rng.choice((0, 40, 500))
            else:
                x["us"] *= 100
            return x
        return [one(i) for i in range(len(ch))]

    def step(self, x):
        n, a = self.n, x["a"]
        if a == "connect":
            n.client()
        elif a == "request":
            c = n.clients[x["c"] - 1]
            if not c.closed:
                ch = self.concrete(self.set.chains[x["j"] - 1])
                n.send(c, n.w.message(self.rng.choice((1, 2)), ch, n.w.hdr + n.w.chain_len(ch) + self.rng.choice((0, 30))))
        elif a == "answer":
            out = n.outstanding()
            if out:
                n.ack(out[min(x["f"], len(out) - 1)])
        elif a == "close":
            c = n.clients[x["c"] - 1]
            if not c.closed:
                n.close_client(c, rst=self.rng.random() < 0.5)
        elif a == "lose":
            socks = [s for s in self.peers[x["t"] - 1].socks.values() if not s.closed]
            if socks:
                socks[-1].closed = True
                if self.rng.random() < 0.5:
                    socks[-1].sock.setsockopt(N.socket.SOL_SOCKET, N.socket.SO_LINGER, N.struct.pack("ii", 1, 0))
                socks[-1].sock.close()
        elif a == "tick":
            if n.held:
                n.release()
            self.ungate_for_tick()
            n.settle(mark=False)
            now = n.shm.get("vnow")
            n.tick((N.cell(now) * N.GRID + UNIT) - now)
        elif a == "gate":
            n.shm.set("disk_credit", 0)
            self.gated = True
        elif a == "grant":
            n.shm.set("disk_credit", x["n"])
            self.gated = x["n"] != -1

    def ungate_for_tick(self):
        if self.gated and self.set.given["cfg"]["period"]:
            self.n.shm.set("disk_credit", -1)
            self.gated = False

    def drive(self):
        n, rng = self.n, self.rng
        p = rng.choice((0, 0, 0.3, 0.7))      # how often steps come at once
        for x in self.script:
            if n.failed:
                return
            if not n.held and rng.random() < p and x["a"] != "tick":
                n.hold()
            self.step(x)
            if n.held and rng.random() < p:
                continue
            self.settle()


def replay(ctx, seed, item):
    name, steps = item
    try:
        e = Script(ctx, seed, SETS[name], steps)
    except N.Died as x:
        return x.trace
    return e.run()


ALL = [
    Set("answers", [M((1, 2), 2), M((1, 2, 3), 2), [F(1), R(), F(2), R()]], 1, 3, ["answer"], (6, 7)),
    Set("leaving", [M((1, 2), 1), [F(1), C, R()]], 2, 3, ["answer", "close"], (6, 7)),
    Set("timing", [[F(1, 2, 1), R()], [F(1, 1), R(), F(2, 2), R()], M((1, 2), 2, 2)], 1, 2, ["answer", "tick"], (7, 9)),
    Set("losses", [[F(1, 2, 1), R(), F(2), R()], M((1, 2), 2, 1)], 1, 2, ["answer", "tick", "lose"], (7, 8)),
    Set("hangups", [[F(1, 2, 1), R(), S(1)], M((1, 2), 1, 1)], 2, 2, ["answer", "tick", "close", "lose"], (6, 7)),
    Set("disk", [[S(4), L(3)], [S(7)], [L(5), S(2, 0)]], 2, 4, ["gate"], (5, 6)),
    Set("leavedisk", [[S(4), S(1)], [L(3), F(1), R()]], 2, 3, ["gate", "close", "answer"], (5, 6)),
    Set("sync", [[S(1, sync=1), F(1), R()], [S(2), S(1, sync=1)]], 2, 3, ["gate", "answer", "close"], (6, 7)),
    Set("period", [[S(1, sync=1), F(1, 2), R()], [S(2), S(1, sync=1)]], 1, 3, ["answer", "tick", "close"], (7, 8), period=1),
]
SETS = {s.name: s for s in ALL}
USES = {"C01": ("leaving", "answers"), "C03": ("answers", "disk"), "C05": ("answers", "leaving"), "C06": ("timing", "losses"),
        "C07": ("hangups", "leaving", "losses"), "C08": ("disk", "leavedisk"), "C09": ("sync", "period"), "C04": ("timing",)}
