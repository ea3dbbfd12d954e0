"""Seeded environments for a real node: who connects, what is asked, in which pieces and when, what fails."""
import random

import age
import node as N


def weighted(rng, d):
    items = [(k, w) for k, w in d.items() if w > 0]
    x = rng.random() * sum(w for _, w in items)
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


class Opt(dict):
    __getattr__ = dict.get

    def __missing__(self, k):
        return 0


BASE = dict(
    steps=14, clients=3, peers=3, dead=0, settle=0.5, batch=0.25, pieces=0.2, stats=0,
    ops=dict(C=3, S=2, L=1, F=3, M=1), chain=4, depth=2, timeouts=(0,), retries=(0, 1, 2), skips=(1,),
    bytes=(16, 17, 64, 500, 3000), big=0, reqsize=(0, 0, 100, 2000), us=(0, 5, 10, 130, 1000),
    nbytes=(1, 100, 4096, 5000), offs=(-1, -1, 0, 10, 4096), sync=0.3, acks=(1,), ids=(0, 1, 2, 3, 7, 1 << 20, (1 << 31) - 1),
    recv_max=(0, 0, 0, 1, 5, 40), send_max=(0, 0, 0, 3, 50), eagain=(0, 0, 0, 30), disk_short=(0, 0, 0, 50, 1000),
    act=dict(connect=2, request=8, ack=6, tick=0, close=0, reset=0, peerdrop=0, peerdown=0, peerup=0, gate=0, stall=0, stat=0),
)


class Env:
    """one execution"""

    def __init__(self, ctx, seed, opts):
        o = Opt(BASE)
        o.update(opts)
        o["act"] = dict(BASE["act"], **opts.get("act", {}))
        o["ops"] = dict(BASE["ops"], **opts.get("ops", {}))
        self.o = o
        self.rng = random.Random(seed)
        rng = self.rng
        kw = dict(o.node or {})
        for k, v in list(kw.items()):
            if isinstance(v, tuple):
                kw[k] = rng.choice(v)
        if o.big:
            kw["small"] = True
        kw.setdefault("storage", bool(o.ops.get("S") or o.ops.get("L")))
        self.n = n = N.Node(ctx.exe("dw_node"), ctx.wire(), ctx.ip(), seed=seed & 0xFFFFFFFF, **kw)
        for f, k in (("recv_max", o.recv_max), ("send_max", o.send_max), ("send_eagain", o.eagain), ("disk_short", o.disk_short), ("eintr", o.interrupts)):
            if k:
                n.shm.set(f, rng.choice(k))
        if o.odirect_short and n.shm.get("disk_short"):
            n.shm.set("disk_short", 4096)
        self.peers = [n.peer(j, proto=rng.choice(o.peerproto or ("tcp",)), listen=True) for j in range(o.peers)]
        self.deadpeers = [n.peer(50 + j, listen=False) for j in range(o.dead)]
        self.pending = []            # (client, bytes) pieces not sent yet
        self.gated = False
        self.stalled = []
        self.flight = 0

    # ---------------------------------------------------------------- chains
    def size(self):
        o, rng = self.o, self.rng
        if o.big and rng.random() < o.big:
            return rng.choice((70000, 200000, 600000))
        return rng.choice(o.bytes)

    def vary(self, n):
        """different sizes tell the operations apart"""
        return n if self.n.unit > 1 or self.rng.random() < 0.2 else n + self.rng.randint(0, 60)

    def chain(self, depth=None, n=None):
        """a well-formed chain, final reply included"""
        o, rng = self.o, self.rng
        depth = o.depth if depth is None else depth
        ch = []
        targets = self.peers + self.deadpeers
        for _ in range(rng.randint(0, n if n is not None else o.chain)):
            k = weighted(rng, o.ops)
            if k == "C":
                ch.append({"op": "C", "us": rng.choice(o.us)})
            elif k == "S":
                ch.append({"op": "S", "n": self.vary(rng.choice(o.nbytes)), "off": rng.choice(o.offs), "sync": int(rng.random() < o.sync)})
            elif k == "L":
                ch.append({"op": "L", "n": self.vary(rng.choice(o.nbytes)), "off": rng.choice(o.offs)})
            elif k in "FM" and depth > 0 and targets:
                sub = self.chain(depth - 1, 2)
                if k == "M" and sub[0]["op"] == "M":      # would read as more targets of the same multi-forward
                    sub.insert(0, {"op": "C", "us": rng.choice(o.us)})
                sub[-1]["n"] = self.size()
                need = self.n.w.hdr + self.n.w.chain_len(sub)
                to, rt = rng.choice(o.timeouts), rng.choice(o.retries)
                m = 1 if k == "F" else rng.randint(1, min(4, len(targets)))
                ts = [rng.choice(targets)] if k == "F" else rng.sample(targets, m)
                sub[-1]["ack"] = 1 if k == "F" else rng.randint(1, m)
                for t in ts:
                    ch.append({"op": k, "t": t.t, "ps": need + rng.choice(o.reqsize) + (0 if rng.random() < 0.15 else rng.randint(0, 400)) + (rng.choice((0, 65536)) if o.big else 0),
                               "to": to, "rt": rt, "sk": 1, "pr": t.proto})
                ch += sub
        ch.append({"op": "R", "n": max(self.size(), self.n.w.hdr + self.n.w.cmd), "ack": 1})
        return ch

    # ---------------------------------------------------------------- steps
    def up(self):
        return [c for c in self.n.clients if not c.closed]

    def do(self, a):
        n, rng, o = self.n, self.rng, self.o
        up = self.up()
        if a == "connect":
            if len(up) < o.clients:
                c = n.uclient() if n.proto == "udp" else n.client(rcvbuf=o.rcvbuf or 0)
        elif a == "request":
            if not up:
                return self.do("connect")
            free = [c for c in up if not any(p[0] is c for p in self.pending)]
            if not free:
                return self.piece()
            c = rng.choice(free)
            if c.udp:
                return self.datagrams(c)
            data = b""
            for _ in range(rng.choice((1, 1, 2, 4)) if not o.single else 1):
                ch = self.chain()
                need = n.w.hdr + n.w.chain_len(ch)
                data += n.w.message(rng.choice(o.ids), ch, need + rng.choice(o.reqsize) + (rng.choice((0, 100000)) if o.big else 0),
                                    fill=rng.choice((0, 255, 7)))
            if rng.random() < o.pieces:
                self.pending.append([c, data])
                self.piece()
            else:
                n.send(c, data)
        elif a == "ack":
            out = n.outstanding()
            if out:
                for f in rng.sample(out, rng.randint(1, min(len(out), 3))):
                    n.ack(f, size=rng.choice(o.acksize or (0, 0, 100, 5000)), status=rng.choice((0, 0, 0, -1)))
        elif a == "tick":
            if n.held:
                nx = n.shm.get("next_exp")
                if nx != N.S.NONE64 and self.calm:
                    n.tick_raw(nx)
                    self.calm = False        # the node has work to do now
            elif not self.stalled:
                self.ungate_for_tick()
                n.settle(mark=False)         # time passes only between reactions
                nx, now = n.shm.get("next_exp"), n.shm.get("vnow")
                if nx != N.S.NONE64 and rng.random() < 0.6:
                    # just before, at, or just after the instant the timer belongs to; offsets do not add up
                    b = N.cell(nx) * N.GRID
                    off = rng.choice((-600, 0, 0, 300))
                    d = (b + off if off < 0 else max(nx, b + off)) - now
                else:
                    d = (now + rng.choice((1000, 10000, 25000, 50000, 99990))) // N.GRID * N.GRID - now
                n.tick(max(0, d))
        elif a in ("close", "reset"):
            if up:
                c = rng.choice(up)
                self.pending = [p for p in self.pending if p[0] is not c]
                self.stalled = [s for s in self.stalled if s is not c]
                c.stall = False
                n.close_client(c, rst=a == "reset")
        elif a == "peerdrop":
            socks = [s for pe in self.peers for s in pe.socks.values() if not s.closed]
            if socks:
                s = rng.choice(socks)
                s.closed = True
                self.stalled = [x for x in self.stalled if x is not s]
                if rng.random() < 0.5:
                    s.sock.setsockopt(N.socket.SOL_SOCKET, N.socket.SO_LINGER, N.struct.pack("ii", 1, 0))
                s.sock.close()
        elif a == "peerdown":
            live = [p for p in self.peers if p.ls is not None]
            if len(live) > 1:
                p = rng.choice(live)
                n.pump()
                self.stalled = [x for x in self.stalled if x not in p.socks.values()]
                n.unlisten(p)
        elif a == "peerup":
            dn = [p for p in self.peers if p.ls is None and p.proto == "tcp"]
            if dn:
                n.relisten(rng.choice(dn))
        elif a == "gate":
            if self.gated:
                cr = rng.choice((1, 1, 2, 3, -1))
                n.shm.set("disk_credit", cr)
                self.gated = cr != -1
            else:
                n.shm.set("disk_credit", 0)
                self.gated = True
        elif a == "stall":
            if self.stalled and rng.random() < 0.5:
                self.unstall()
            else:
                cand = up + [s for pe in self.peers for s in pe.socks.values() if not s.closed]
                if cand:
                    c = rng.choice(cand)
                    c.stall = True
                    self.stalled.append(c)
        elif a == "stat":
            if not n.held:
                self.settle()
                if not self.stalled and not self.pending:
                    n.stat()

    def datagrams(self, c):
        n, rng, o = self.n, self.rng, self.o
        for _ in range(rng.choice((1, 1, 2, 4))):
            if rng.random() < (o.empty or 0):
                n.datagram(c, b"")
            ch = self.chain()
            need = n.w.hdr + n.w.chain_len(ch)
            m = n.w.message(rng.choice(o.ids), ch, need + rng.choice(o.reqsize), fill=rng.choice((0, 255, 7)))
            self.flight += len(m) + 600
            if self.flight > 60000:          # the kernel drops what does not fit in the node's socket buffer
                if n.held:
                    n.release()
                n.settle(mark=False)
                self.flight = len(m)
                if n.failed:
                    return
            n.datagram(c, m)

    def ungate_for_tick(self):
        # a gated disk and a passing sync period do not go together: the period would be missed by the environment
        if self.gated and self.o.node and self.o.node.get("sync"):
            self.n.shm.set("disk_credit", -1)
            self.gated = False

    def piece(self):
        if self.pending:
            p = self.rng.choice(self.pending)
            k = self.rng.randint(1, len(p[1]))
            self.n.send(p[0], p[1][:k])
            p[1] = p[1][k:]
            if not p[1]:
                self.pending.remove(p)

    def unstall(self):
        for c in self.stalled:
            c.stall = False
        self.stalled = []

    def settle(self):
        n = self.n
        if n.held:
            n.release()
        if self.gated and n.shm.get("disk_credit", True) > 0 and self.rng.random() < 0.5:
            n.shm.set("disk_credit", 0)
        return n.settle(mark=not self.stalled)

    def drive(self):
        n, rng, o = self.n, self.rng, self.o
        self.do("connect")
        for i in range(o.steps):
            if n.failed:
                return
            if o.age and i == o.steps // 2:
                self.grow_old()
            if n.p.poll() is not None:
                break
            if not n.held and rng.random() < o.batch:
                self.calm = not self.stalled and rng.random() < 0.6 and n.settle(mark=False)
                n.hold()
            self.do(weighted(rng, o.act))
            if self.pending and rng.random() < 0.5:
                self.piece()
            if n.failed:
                return
            if rng.random() < o.settle:
                self.settle()
                if rng.random() < o.stats and not self.stalled and not n.failed:
                    n.stat()

    def grow_old(self):
        """a great many other conversations, while what is under way here rests"""
        n, rng = self.n, self.rng
        kind = rng.choice(self.o.age)
        self.rest()
        if n.settle() and kind in ("stored", "stores", "loads"):
            n.request(n.client(), 5, [{"op": "S", "n": 16, "off": 0, "sync": 0}, {"op": "R", "n": 64, "ack": 1}])
        if n.failed or not n.settle():
            return
        if kind in age.TIMED and n.shm.get("next_exp") != N.S.NONE64:
            kind = "answered"
        age.age(n, kind, rng)
        if self.o.stats:
            n.stat()

    def rest(self):
        n = self.n
        if n.held:
            n.release()
        self.unstall()
        n.shm.set("disk_credit", -1)
        self.gated = False
        while self.pending:
            self.piece()

    def wind_down(self):
        """let everything complete, then close everything"""
        n, rng, o = self.n, self.rng, self.o
        if n.failed:
            return
        self.rest()
        if not n.settle():
            return
        for _ in range(60):
            out = n.outstanding()
            nx = n.shm.get("next_exp")
            if not out:
                if nx == N.S.NONE64 or o.node and o.node.get("sync") and _ > 3:
                    break
                if nx - n.shm.get("vnow") > 10**8:
                    break
                n.tick(max(0, nx - n.shm.get("vnow")))
            else:
                for f in out:
                    n.ack(f)
                n.settle()
            if n.failed:
                return
        if o.stats:
            n.stat()
        for c in self.up():
            n.close_client(c, rst=rng.random() < 0.2)
        n.settle()
        if o.stats:
            n.stat()

    def run(self):
        try:
            self.drive()
            if not self.o.abrupt:
                self.wind_down()
            if self.o.flood and not self.n.failed:
                self.rest()
                if self.n.settle():
                    age.flood(self.n, self.rng)
            return self.n.finish()
        except BaseException:
            self.n.cleanup()
            raise


def scenario(ctx, seed, opts):
    try:
        e = Env(ctx, seed, opts)
    except N.Died as x:
        return x.trace
    return e.run()
