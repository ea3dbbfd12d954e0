"""Real clients with real nodes: what the command lines of the clients make the nodes do, judged by DWSystem."""
import itertools
import os
import random
import shutil
import time

import cli
import client
import node as N
import scratch
import shm as S


class Wires:
    """turns the records of one program into events; `who`: its name, for nodes their address"""

    def __init__(self, wire, who, events, is_node):
        self.w, self.who, self.events, self.is_node = wire, who, events, is_node
        self.fds = {}

    def ev(self, r, **k):
        self.events.append((r.seq, len(self.events), k))
        return k

    def one(self, r):
        t = r.type
        if t == S.ACCEPT:
            self.fds[r.fd] = {"k": "%s>%s" % (S.addr(r.a), self.who), "in": N.Stream(self.w, True), "out": N.FwdStream(self.w), "mine": False}
        elif t == S.CONNECT and r.kind != 4:
            if r.rv == 0 or r.err == 115:
                k = "%s>%s" % (S.addr(r.b), S.addr(r.a))
                self.fds[r.fd] = {"k": k, "in": N.Stream(self.w, True), "out": N.FwdStream(self.w), "mine": True}
                self.ev(r, e="open", k=k, fr=self.who, to=S.addr(r.a))
            else:
                self.ev(r, e="refused", who=self.who, to=S.addr(r.a), err=r.err)
        elif t == S.CLOSE:
            self.fds.pop(r.fd, None)
        elif t == S.RECV:
            d = self.fds.get(r.fd)
            if d and r.rv > 0:
                d["in"].feed(r.data[:r.rv], lambda *a: self.ev(r, e="garbage"), lambda _, m: self.came(r, d, m))
        elif t == S.SEND:
            d = self.fds.get(r.fd)
            if d and r.rv > 0:
                d["out"].feed2(r.data[:r.rv], lambda: self.ev(r, e="torn", who=self.who), lambda e, m: self.went(e, d, m))
            elif d and r.err != 11:
                self.ev(r, e="senderr", who=self.who, err=r.err)
        elif t in (S.WRITE, S.READ):
            if r.rv > 0:
                self.ev(r, e="io", p=self.who, kind="S" if t == S.WRITE else "L", off=r.a, n=r.rv)
            else:
                self.ev(r, e="ioerr", p=self.who, err=r.err)

    def came(self, r, d, m):
        rid, size, st = self.w.head(m)
        ch = self.w.decode_chain(m)
        if ch is None or bool(ch) == d["mine"]:
            return self.ev(r, e="garbage")
        rid &= 0x7FFFFFFF
        if not d["mine"]:
            self.ev(r, e="take", p=self.who, k=d["k"], id=rid, ch=ch)
        elif self.is_node:
            self.ev(r, e="ack", p=self.who, k=d["k"], id=rid, st=st)
        else:
            self.ev(r, e="got", c=self.who, k=d["k"], id=rid, st=st)

    def went(self, e, d, m):
        ch = self.w.decode_chain(m) if m is not None else None
        if ch is None or bool(ch) != d["mine"]:
            e["e"] = "garbage"
            return
        rid, size, st = self.w.head(m)
        e.pop("who")
        rid &= 0x7FFFFFFF
        if not d["mine"]:
            e.update(e="rep", p=self.who, k=d["k"], id=rid, n=size, st=st)
        elif self.is_node:
            e.update(e="fwd", p=self.who, k=d["k"], id=rid, ch=ch, n=size)
        else:
            e.update(e="ask", c=self.who, k=d["k"], id=rid, ch=ch)


class SysNode(N.Node):
    def attach(self, events):
        self.wires = Wires(self.w, "%s:%d" % (self.ip, self.port), events, True)

    def one(self, r):
        self.wires.one(r)


class SysClient(client.ClientRun):
    def attach(self, name, events):
        self.wires = Wires(self.w, name, events, False)

    def one(self, r):
        if r.type == S.SLEEP:
            client.ClientRun.one(self, r)
        else:
            self.wires.one(r)


def options(rng, o, addrs):
    """abstract options and their arguments: the commands of one client"""
    while True:
        names = rng.choices(list(o["kinds"]), list(o["kinds"].values()), k=rng.choice(o.get("len", (1, 2, 3, 4, 5, 6, 8, 10))))
        items = []
        for x in names:
            if x == "C":
                v = rng.choice((0, 10, 130, rng.randint(1, 3000)))
                it = {"o": "C", "v": [v]}, "%d" % v
            elif x in "SL":
                v = rng.choice((1, 100, 4096, rng.randint(1, 5000)))
                it = ({"o": "S", "v": [v], "sync": 1}, "%d" % v) if x == "S" else ({"o": "L", "v": [v]}, "%d" % v)
                if x == "S" and rng.random() < .5:
                    it = dict(it[0], sync=0), it[1] + ",nosync"
            elif x in ("so", "lo"):
                v = rng.randint(0, 100000)
                it = {"o": x, "v": [v]}, "%d" % v
            elif x == "F":
                ts = [rng.choice(addrs) for _ in range(rng.choice((1, 1, 1, 2, 2, 3)))]
                parts = list(ts)
                to = rt = 0
                if rng.random() < .3:
                    to, rt = 1000000000, 2
                    parts += ["timeout=%d" % to, "retry=%d" % rt]
                it = {"o": "F", "ts": [{"t": t, "pr": "tcp"} for t in ts], "to": to, "rt": rt}, ",".join(parts)
            elif x == "R":
                v = rng.choice((16, 100, rng.randint(16, 3000)))
                nk = rng.choice((0, 1, 2, 3))
                it = {"o": "R", "v": [v], "nk": nk}, "%d%s" % (v, ",nack=%d" % nk if nk else "")
            else:
                k = rng.choice((1, 1, 2, 3))
                sure = rng.random() < .3
                it = {"o": "s", "k": k, "sure": sure}, "%d%s" % (k, "" if sure else ",prob=0.5")
            items.append(it)
        ops = [i[0] for i in items]
        if not adjacent(ops) and sum(1 for i in ops if i["o"] == "s" and not i["sure"]) <= 3 and sum(len(i.get("ts", ())) for i in ops) <= 8:
            return items


def adjacent(ops):
    """may the targets of two forwards come one after the other (see known-findings.txt)"""
    multi = [x["o"] == "F" and len(x["ts"]) > 1 for x in ops if x["o"] not in ("so", "lo")]
    if any(x["o"] == "s" for x in ops):
        return sum(multi) > 1
    return any(a and b for a, b in zip(multi, multi[1:]))


def messages(ops):
    """requests that one request makes, itself included"""
    width, total = [1], 1
    for x in ops:
        if x["o"] == "F":
            width.append(width[-1] * len(x["ts"]))
            total += width[-1]
        elif x["o"] == "R" and len(width) > 1:
            width.pop()
    return total


LETTERS = ("C", "S", "L", "Fa", "Fb", "M", "Mb", "R", "R2", "s")


def letter(x, addrs):
    """the same options as in DWSystemMC, with amounts that can be told from other work"""
    if x == "C":
        return {"o": "C", "v": [1000]}, "1000"
    if x in "SL":
        return {"o": x, "v": [100], "sync": 0}, "100,nosync" if x == "S" else "100"
    if x[0] in "FM":
        ts = [addrs[ord(c) - ord("a")] for c in {"M": "ab", "Mb": "bb"}.get(x, x[1:])]
        return {"o": "F", "ts": [{"t": t, "pr": "tcp"} for t in ts], "to": 0, "rt": 0}, ",".join(ts)
    if x == "R":
        return {"o": "R", "v": [20], "nk": 0}, "20"
    if x == "R2":
        return {"o": "R", "v": [], "nk": 2}, "nack=2"
    return {"o": "s", "k": 1, "sure": False}, "1,prob=0.5"


def words(alpha, upto):
    for n in range(1, upto + 1):
        for wd in itertools.product(alpha, repeat=n):
            ops = [letter(x, "ab")[0] for x in wd]
            if not adjacent(ops):
                yield wd


def word(ctx, seed, wd):
    return scenario(ctx, seed, dict(word=wd, nodes=(2,), clients=(1,), most=12))


KINDS = {"C": 4, "S": 3, "L": 2, "so": 1, "lo": 1, "F": 5, "R": 3, "s": 1}


def scenario(ctx, seed, o):
    rng = random.Random(seed)
    o = dict(dict(kinds=KINDS, nodes=(1, 2, 2, 3, 4), clients=(1, 1, 2, 3), hold=.1, gate=.1), **o)
    w = ctx.wire()
    base = ctx.ip().rsplit(".", 1)[0]
    events = []
    nodes, clients = [], []
    tmp = scratch.make("sys", True)
    seq = os.path.join(tmp, "seq")
    with open(seq, "wb") as f:
        f.truncate(4096)
    env = {"DWSHIM_SEQ": seq}
    stuck = None
    try:
        one_each = rng.random() >= o.get("threads", .4)
        for j in range(rng.choice(o["nodes"])):
            kw = {}
            if not one_each and rng.random() < .7:
                kw = dict(nt=rng.choice((2, 3)), accept=rng.choice(("child", "parent", "shared")))
            n = SysNode(ctx.exe("dw_node"), w, "%s.%d" % (base, j + 1), seed=rng.getrandbits(31), logsz=16 << 20, env=env, **kw)
            n.attach(events)
            nodes.append(n)
            for f, v in (("recv_max", (0, 0, 0, 7, 40)), ("send_max", (0, 0, 0, 5, 50)), ("send_eagain", (0, 0, 0, 30))):
                n.shm.set(f, rng.choice(v))
        addrs = ["%s:%d" % (n.ip, n.port) for n in nodes]
        cfg = {"clients": [], "grain": N.GRAIN, "fifo": one_each}
        for j in range(rng.choice(o["clients"])):
            items = [letter(x, addrs) for x in o["word"]] if "word" in o else options(rng, o, addrs)
            argv, files = cli.render(rng, items, rng.random() < .2)
            one = messages([i[0] for i in items])
            most = o.get("most", 30) if one_each else 14
            nt, ns, pps = rng.choice([(t, s, p) for t in (1, 2, 3) for s in (1, 2, 3) for p in (1, 2, 4) if t * s * p * one <= most] or [(1, 1, 1)])
            argv += ["--nt=%d" % nt, "--ns=%d" % ns, "-n%d" % (pps * ns)]
            if rng.random() < .3:
                argv.append("--period=%d" % rng.choice((10, 1000, 50000)))
            first = nodes[0] if "word" in o else rng.choice(nodes)
            c = SysClient(ctx.exe("dw_client"), w, first.ip, argv, {}, rng.getrandbits(31), listen=False, files=files, env=env, port=first.port)
            c.attach("cl%d" % (j + 1), events)
            clients.append(c)
            cfg["clients"].append({"name": "cl%d" % (j + 1), "opts": [i[0] for i in items], "total": nt * ns * pps,
                                   "to": "%s:%d" % (first.ip, first.port)})
        stuck = play(rng, o, nodes, clients, events)
        ev = [e for _, _, e in sorted(events, key=lambda x: x[:2])]
        for c in clients:
            name = c.wires.who
            if c.p.poll() is None:
                continue
            for l in c.stdout().split("\n"):
                m = client.LINE.match(l)
                if m:
                    ev.append({"e": "line", "c": name, "id": int(m.group(3))})
            ev.append({"e": "exit", "c": name, "code": c.p.returncode})
        if stuck:
            ev.append({"e": "stuck", "why": stuck})
        else:
            ev.append({"e": "end", "cpu": [{"p": a, "us": n.shm.get("vcpu")} for a, n in zip(addrs, nodes)]})
        return {"cfg": cfg, "ev": ev, "argv": [c.argv for c in clients] + [n.argv for n in nodes]}
    finally:
        for x in clients + nodes:
            x.cleanup()
        shutil.rmtree(tmp, ignore_errors=True)


def play(rng, o, nodes, clients, events):
    """until the clients have ended and the nodes are at rest; says what is stuck"""
    last, seen = time.time(), -1
    calm = 0
    while True:
        for x in clients + nodes:
            x.pull()
        for n in nodes:
            if n.p.poll() is not None:
                return "node exited with %s" % n.p.returncode
        if len(events) != seen:
            seen, last, calm = len(events), time.time(), 0
        elif time.time() - last > N.STUCK_S:
            return "nothing happens: clients %s, threads %s" % ([c.p.poll() for c in clients], [n.shm.threads() for n in nodes])
        running = [c for c in clients if c.p.poll() is None]
        for c in running:
            if c.sleeping and rng.random() < .5:
                c.tick(min(c.sleeping.values()))
        free = [n for n in nodes if not n.held and n.shm.get("disk_credit", True) < 0]
        for n in nodes:
            if n.held and rng.random() < .3:
                n.release()
            elif n.shm.get("disk_credit", True) >= 0 and rng.random() < .3:
                n.shm.set("disk_credit", -1)
            elif running and n in free:
                if rng.random() < o["hold"]:
                    n.shm.set("hold", 1)
                    n.held = True
                elif rng.random() < o["gate"]:
                    n.shm.set("disk_credit", 0)
        if not running and len(free) == len(nodes) and all(s == 2 for n in nodes for _, s, _ in n.shm.threads()):
            calm += 1
            if calm > 8 and all(n.outq() == 0 for n in nodes):
                for x in clients + nodes:
                    x.pull()
                if len(events) == seen:
                    return None
        time.sleep(0.0007)
