"""Runs a real dw_node with the shim, plays its clients and peers, and records the execution as a trace."""
import os
import resource
import select
import shutil
import signal
import socket
import struct
import subprocess
import time

import scratch
import shm as S

STUCK_S = float(os.environ.get("DW_STUCK_S", "8"))
PORT = 7000
GRID = 1000          # us: resolution of the recorded time; timeouts in use are multiples of it
GRAIN = 200          # us of virtual CPU tolerated per COMPUTE command


def cell(t):
    return (t + GRID // 5) // GRID


class Died(Exception):
    pass


class Stream:
    """reassembles messages of one direction of one connection"""

    def __init__(self, wire, keep):
        self.w, self.keep = wire, keep
        self.buf = bytearray()
        self.skip = 0
        self.cur = None
        self.dead = False

    def feed(self, data, started, finished):
        """started(hdr fields, item) when the head of a message is known, finished(item, bytes) when it is complete"""
        w = self.w
        need0 = w.hdr + w.cmd
        data = memoryview(data)
        while len(data) and not self.dead:
            if self.skip:
                n = min(self.skip, len(data))
                self.skip -= n
                data = data[n:]
                if self.skip == 0:
                    it, self.cur = self.cur, None
                    finished(it, None)
                continue
            want = need0
            if len(self.buf) >= w.hdr:
                size = w.head(self.buf)[1]
                if size < need0 or size > 64 << 20:
                    self.dead = True
                    started(None, None)
                    return
                if self.keep:
                    want = size
            elif len(self.buf) < w.hdr:
                want = w.hdr
            n = min(max(want - len(self.buf), 0), len(data))
            if n:
                self.buf += data[:n]
                data = data[n:]
            if len(self.buf) < w.hdr:
                continue
            size = w.head(self.buf)[1]
            if size < need0 or size > 64 << 20:
                self.dead = True
                started(None, None)
                return
            if self.keep:
                if len(self.buf) >= size:
                    m = bytes(self.buf)
                    self.buf = bytearray()
                    finished(None, m)
            elif len(self.buf) >= need0:
                m = bytes(self.buf)
                self.buf = bytearray()
                self.cur = started(m, size)
                self.skip = size - need0
                if self.skip == 0:
                    it, self.cur = self.cur, None
                    finished(it, None)

    def partial(self):
        return self.skip > 0 or len(self.buf) > 0


class FwdStream(Stream):
    """out-stream of forwards: the event stands at the first byte but needs the whole chain"""

    def __init__(self, wire):
        super().__init__(wire, True)
        self.slot = None

    def feed2(self, data, reserve, finished):
        w = self.w
        data = memoryview(data)
        while len(data) and not self.dead:
            if self.slot is None:
                self.slot = reserve()
            want = w.hdr
            if len(self.buf) >= w.hdr:
                want = w.head(self.buf)[1]
            n = min(max(want - len(self.buf), 0), len(data))
            self.buf += data[:n]
            data = data[n:]
            if len(self.buf) >= w.hdr:
                size = w.head(self.buf)[1]
                if size < w.hdr + w.cmd or size > 64 << 20:
                    self.dead = True
                    finished(self.slot, None)
                    self.slot = None
                    return
                if len(self.buf) >= size:
                    m, self.buf = bytes(self.buf), bytearray()
                    s, self.slot = self.slot, None
                    finished(s, m)


class Client:
    def __init__(self, node, name, sock):
        self.node, self.name, self.sock = node, name, sock
        self.sent = 0
        self.outq = bytearray()
        self.closed = False
        self.stall = False
        self.got = 0
        self.udp = False


class Peer:
    """a fake remote node: accepts connections; answers when told to"""

    def __init__(self, node, ip, port, proto="tcp"):
        self.node, self.ip, self.port = node, ip, port
        self.t = "%s:%d" % (ip, port)
        self.proto = proto
        self.ls = None
        self.socks = {}          # "ip:port" of the node's end -> Client-like
        if proto == "udp":
            self.us = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.us.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
            self.us.bind((ip, port))
            self.us.setblocking(False)

    def listen(self):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self.node.small:
            self.ls.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, 1400)
        self.ls.bind((self.ip, self.port))
        self.ls.listen(64)
        self.ls.setblocking(False)


class Node:
    def __init__(self, exe, wire, ip, args=(), nt=1, storage=True, logsz=64 << 20, max_storage=None, sync=None,
                 odirect=False, proto="tcp", seed=1, unit=1, accept=None, sndbuf=0, port=PORT, ncpu=0, small=False, watch=False, env=None, nofile=0):
        self.w = wire
        self.ip, self.port = ip, port
        self.proto = proto
        self.unit = unit
        self.nt = nt
        self.dir = scratch.make("node", True)
        self.shm = S.Shm(os.path.join(self.dir, "shm"), logsz)
        self.shm.set("rng", seed & 0x7FFFFFFFFFFFFFFF)
        self.shm.set("sndbuf", sndbuf)
        self.shm.set("ncpu", ncpu)
        self.shm.set("watch", int(watch))
        self.watched = [] if watch else None
        self.store = os.path.join(self.dir, "store")
        a = [exe, "-b", "%s//%s:%d" % ("udp:" if proto == "udp" else "tcp:", ip, port)]
        a += ["-s", self.store if storage else ""]
        if nt > 1:
            a += ["--nt=%d" % nt]
        if accept:
            a += ["-a", accept]
        if max_storage is not None:
            a += ["-m", str(max_storage)]
        if sync is not None:
            a += ["--sync=%d" % sync]
        if odirect:
            a += ["--odirect"]
        a += list(args)
        env = dict(env or {}, PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=self.dir, DWSHIM_STORE=self.store)
        env.update(self.shm.env())
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.errf = open(os.path.join(self.dir, "err"), "wb")
        self.argv = a[1:]
        self.p = subprocess.Popen(a, env=env, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.errf,
                                  pass_fds=[self.shm.child.fileno()], cwd=self.dir,
                                  preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))) if nofile else None)
        self.nloops = nt + (1 if storage else 0)
        self.events = []
        self.meta = []
        self.clients = []
        self.by_addr = {}
        self.peers = {}
        self.fdst = {}
        self.outs = {}
        self.nk = 0
        self.udp_got = self.udp_sent = 0     # datagrams
        self.udp_acks = {}       # (target, socket) -> answers under way
        self.udp_from = {}       # (target, id) -> where the node sends from
        self.fwds = {}           # f -> dict(k, id, ch, size, t)
        self.nf = 0
        self.acked = set()
        self.held = False
        self.cfg = {"max": (max_storage if max_storage is not None else 1 << 30) // unit, "period": (sync or 0) * 1000 if
                    (sync or 0) > 0 else 0, "odirect": 0, "slack": 0, "nt": nt, "deal": accept == "parent", "grain": GRAIN,
                    "phys": (16 << 20) // unit}
        if odirect:
            self.cfg["odirect"] = 4096
        self.owner = {}          # connection name -> thread that handles it
        self.nreq = 0
        self.failed = False
        self.cell = 0
        self.small = bool(sndbuf or small)
        self.outq_max = 0 if self.small else 2048
        self.statpos = 0
        deadline = time.time() + 30
        while True:
            th = self.shm.threads()
            if len(th) >= self.nloops and all(s in (2, 3, 4) for _, s, _ in th):
                break
            if self.p.poll() is not None or time.time() > deadline:
                err = self.stderr()
                self.cleanup()
                d = Died("node did not start: rc=%s %s" % (self.p.returncode, err))
                d.trace = {"cfg": self.cfg, "ev": [{"e": "died", "code": -999 if self.p.returncode is None else self.p.returncode, "err": err}]}
                raise d
            time.sleep(0.001)
        if odirect:
            self.cfg["odirect"] = os.stat(self.store).st_blksize

    # ------------------------------------------------------------------ log
    def stderr(self):
        self.errf.flush()
        with open(os.path.join(self.dir, "err"), "rb") as f:
            return f.read()[-1000:].decode(errors="replace")

    def ev(self, **k):
        self.events.append(k)
        return k

    def target_of(self, a):
        return S.addr(a)

    def pull(self):
        n = 0
        for r in self.shm.records():
            n += 1
            self.one(r)
        if self.shm.get("magic") == 0xDEAD:
            raise RuntimeError("shim log overflow")
        return n

    def one(self, r):
        t = r.type
        if self.watched is not None and t in (S.OPT, S.SCHED, S.MARK, S.RECV):
            self.watched.append(r)
        if t == S.ACCEPT:
            a = S.addr(r.a)
            c = self.by_addr.get(a)
            name = c.name if c else "x" + a
            self.fdst[r.fd] = {"kind": "in", "name": name, "cl": c, "nrecv": 0, "in": Stream(self.w, True),
                               "out": Stream(self.w, False)}
            self.ev(e="acc", c=name)
        elif t == S.CONNECT:
            if r.kind == 4:      # connected UDP socket
                return
            self.nk += 1
            k = "k%d" % self.nk
            d = {"kind": "out", "name": k, "t": S.addr(r.a), "local": S.addr(r.b), "nrecv": 0, "in": Stream(self.w, True),
                 "out": FwdStream(self.w), "acks": [], "up": True, "fd": r.fd, "err": r.err, "udp": False}
            self.fdst[r.fd] = d
            self.outs[k] = d
            self.ev(e="open", k=k, t=d["t"], pr="tcp")
        elif t == S.CLOSE:
            d = self.fdst.pop(r.fd, None)
            if d is None:
                return
            if d["kind"] == "in":
                self.ev(e="hup", c=d["name"], peer=bool(d["cl"] and d["cl"].closed))
            elif d["kind"] == "out":
                d["up"] = False
                self.ev(e="drop", k=d["name"], peer=self.peer_gone(d))
        elif t == S.RECV:
            if r.kind == 4:
                return self.udp_recv(r)
            d = self.fdst.get(r.fd)
            if d is None or r.rv <= 0:
                return
            d["nrecv"] += r.rv
            self.owner.setdefault(d["name"], set()).add(r.tid)
            data = r.data[:r.rv]
            if d["kind"] == "in":
                def fin(_, m, d=d, r=r):
                    ch = self.w.decode_chain(m)
                    rid, size, st = self.w.head(m)
                    self.nreq += 1
                    self.ev(e="req", c=d["name"], w=r.tid, id=rid, ch=self.scale(ch), cpu=r.vcpu)
                d["in"].feed(data, lambda *a: self.ev(e="garbage-in"), fin)
            else:
                def fin(_, m, d=d):
                    f = d["acks"].pop(0) if d["acks"] else 0
                    self.ev(e="ack", f=f)
                d["in"].feed(data, lambda *a: self.ev(e="garbage-in"), fin)
        elif t == S.SEND:
            if r.kind == 4:
                return self.udp_send(r)
            d = self.fdst.get(r.fd)
            if d is None:
                return
            if r.rv < 0:
                if r.err in (11,):
                    return
                data = r.data[:r.b]
                lost = True
            else:
                data = r.data[:r.rv]
                lost = False
            if d.get("lost"):
                return
            if lost:
                d["lost"] = True
            if d["kind"] == "in":
                def beg(m, size, d=d, r=r):
                    if m is None:
                        return self.ev(e="garbage", c=d["name"])
                    rid, size, st = self.w.head(m)
                    ch = self.w.decode_chain(m)
                    if ch is None or ch:
                        return self.ev(e="garbage", c=d["name"], id=rid, raw=m.hex(), sent=r.rv, of=r.b)
                    return self.ev(e="rep", c=d["name"], id=self.u31(rid), n=size, status=st, cpu=r.vcpu)
                d["out"].feed(data, beg, lambda *a: None)
            else:
                def reserve(d=d, r=r):
                    return self.ev(e="fwd", k=d["name"], cpu=r.vcpu)

                def fin(ev, m, d=d):
                    self.forwarded(ev, m, d)
                d["out"].feed2(data, reserve, fin)
        elif t == S.WRITE or t == S.READ:
            if r.rv < 0:
                self.ev(e="ioerr", err=r.err)
            elif r.rv > 0:
                self.ev(e="io", kind="st" if t == S.WRITE else "ld", off=self.sc(r.a), n=self.sc(r.rv), cpu=r.vcpu)
        elif t == S.FSYNC:
            self.ev(e="fsync", rv=r.rv)
        elif t == S.INTR:
            self.ev(e="intr")
        elif t == S.TICK:
            if cell(r.a) > self.cell:
                self.cell = cell(r.a)
                self.ev(e="tick", t=self.cell * GRID)

    def forwarded(self, ev, m, d):
        if m is None:
            ev["e"] = "garbage"
            return
        rid, size, st = self.w.head(m)
        ch = self.w.decode_chain(m)
        if ch is None:
            ev.update(e="garbage", id=self.u31(rid))
            return
        self.nf += 1
        ev.update(f=self.nf, n=size, ch=self.scale(ch), status=st)
        self.fwds[self.nf] = {"k": d["name"], "id": rid, "size": size, "t": d["t"], "d": d}

    # UDP: every datagram is a message; the sender's address is the "connection"
    def udp_recv(self, r):
        if r.rv < 0:
            return
        self.udp_got += 1
        if r.rv == 0:
            return
        src = S.addr(r.a)
        m = r.data[:r.rv]
        ch = self.w.decode_chain(m) if len(m) >= self.w.hdr else None
        if ch is None:
            return self.ev(e="garbage-in")
        rid, size, st = self.w.head(m)
        if not ch:
            q = self.udp_acks.get((src, r.fd))
            self.ev(e="ack", f=q.pop(0) if q else 0)
            return
        name = "u" + src
        if name not in self.owner:
            self.ev(e="acc", c=name)
        self.owner.setdefault(name, set()).add(r.tid)
        self.nreq += 1
        self.ev(e="req", c=name, w=r.tid, id=rid, ch=self.scale(ch), cpu=r.vcpu)

    def udp_send(self, r):
        dst = S.addr(r.a)
        if r.rv < 0:
            if r.err != 11:
                self.ev(e="senderr", err=r.err)
            return
        m = r.data[:r.rv]
        ch = self.w.decode_chain(m) if len(m) >= self.w.hdr else None
        if ch is None:
            return self.ev(e="garbage", c=dst)
        rid, size, st = self.w.head(m)
        if size != len(m):
            return self.ev(e="garbage", c=dst, size=size, len=len(m))
        if not ch:
            self.ev(e="rep", c="u" + dst, id=self.u31(rid), n=size, status=st, cpu=r.vcpu)
            return
        k = "ku%d-%s" % (r.fd, dst)
        if k not in self.outs:
            self.outs[k] = {"kind": "out", "name": k, "t": dst, "up": True, "udp": True, "fd": r.fd}
            self.ev(e="open", k=k, t=dst, pr="udp")
        ev = self.ev(e="fwd", k=k, cpu=r.vcpu)
        self.forwarded(ev, m, self.outs[k])

    def u31(self, v):
        return v if v < (1 << 31) else -(v & 0x3FFFFFFF) - 2

    def sc(self, v):
        if self.unit == 1:
            return v
        return v // self.unit if v % self.unit == 0 else -7

    def scale(self, ch):
        if ch is None:
            return [{"op": "?"}]
        out = []
        for c in ch:
            c = dict(c)
            if c["op"] in "SL":
                if c["off"] != -1:
                    c["off"] = self.sc(c["off"])
                c["n"] = self.sc(c["n"])
            out.append(c)
        return out

    def peer_gone(self, d):
        """was the far end of this outbound connection closed (or never there)?"""
        pe = self.peers.get(d["t"])
        if pe is None or pe.ls is None:
            return True
        s = pe.socks.get(d["local"])
        if s is None:
            self.accept_peers()
            s = pe.socks.get(d["local"])
        return s is None or s.closed

    # ------------------------------------------------------------------ environment
    def client(self, rcvbuf=0):
        s = socket.socket()
        if rcvbuf or self.small:
            # loopback's 64 KB segments and small buffers make TCP crawl on its retransmission timers
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, 1400)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.bind((self.ip, 0))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = Client(self, "c%d" % (len(self.clients) + 1), s)
        self.by_addr["%s:%d" % s.getsockname()] = c
        s.connect((self.ip, self.port))
        s.setblocking(False)
        self.clients.append(c)
        return c

    def uclient(self):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        s.bind((self.ip, 0))
        s.connect((self.ip, self.port))
        s.setblocking(False)
        c = Client(self, "u%s:%d" % s.getsockname(), s)
        c.udp = True
        self.clients.append(c)
        return c

    def datagram(self, c, m):
        self.udp_sent += 1
        c.sock.send(m)

    def send(self, c, data):
        c.outq += data
        c.sent += len(data)
        self.flush(c)

    def flush(self, c):
        while c.outq and not c.closed:
            try:
                n = c.sock.send(c.outq)
                del c.outq[:n]
            except BlockingIOError:
                return
            except OSError:
                c.outq.clear()
                return

    def request(self, c, rid, ch, size=None, fill=0):
        self.send(c, self.w.message(rid, ch, size, fill=fill))

    def close_client(self, c, rst=False):
        if c.closed:
            return
        c.closed = True
        if rst:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        c.sock.close()

    def peer(self, j, proto="tcp", listen=True):
        ip = self.ip.rsplit(".", 1)[0] + ".%d" % (100 + j)
        pe = Peer(self, ip, PORT, proto)
        if proto == "tcp" and listen:
            pe.listen()
        self.peers[pe.t] = pe
        return pe

    def unlisten(self, pe):
        pe.ls.close()
        pe.ls = None
        for s in pe.socks.values():
            if not s.closed:
                s.closed = True
                s.sock.close()

    def relisten(self, pe):
        pe.listen()

    def accept_peers(self):
        n = 0
        for pe in self.peers.values():
            while pe.ls is not None:
                try:
                    s, a = pe.ls.accept()
                except BlockingIOError:
                    break
                s.setblocking(False)
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                pe.socks["%s:%d" % a] = Client(self, pe.t, s)
                n += 1
        return n

    def pump(self):
        n = self.accept_peers()
        for c in self.clients:
            if not c.closed:
                self.flush(c)
                if not c.stall:
                    n += self.drain(c)
        for pe in self.peers.values():
            while pe.proto == "udp":
                try:
                    m, a = pe.us.recvfrom(1 << 17)
                except BlockingIOError:
                    break
                n += 1
                if len(m) >= self.w.hdr:
                    self.udp_from[pe.t, self.w.head(m)[0]] = a
            for c in pe.socks.values():
                if not c.closed:
                    self.flush(c)
                    if not c.stall:
                        n += self.drain(c)
        return n

    def drain(self, c, limit=1 << 22):
        n = 0
        while n < limit:
            try:
                b = c.sock.recv(min(1 << 18, limit - n))
            except BlockingIOError:
                break
            except OSError:
                break
            if not b:
                break
            n += len(b)
        c.got += n
        return n

    def outstanding(self):
        """forwarded messages that can still be answered"""
        out = []
        for f, x in self.fwds.items():
            if f in self.acked or not x["d"]["up"]:
                continue
            if not x["d"].get("udp"):
                s = self.sock_of(x["d"])
                if s is None or s.closed:
                    continue
            out.append(f)
        return out

    def sock_of(self, d):
        pe = self.peers.get(d["t"])
        return pe.socks.get(d["local"]) if pe else None

    def ack(self, f, size=None, status=0, again=False):
        x = self.fwds[f]
        if not again:
            self.acked.add(f)
        d = x["d"]
        m = self.w.reply(x["id"], size, status)
        if d.get("udp"):
            end = time.time() + STUCK_S
            while (d["t"], x["id"]) not in self.udp_from and time.time() < end:
                self.pump()
            self.udp_acks.setdefault((d["t"], d["fd"]), []).append(f)
            self.udp_sent += 1
            self.peers[d["t"]].us.sendto(m, self.udp_from[d["t"], x["id"]])
            return
        d["acks"].append(f)
        self.send(self.sock_of(d), m)

    def hold(self):
        self.shm.set("hold", 1)
        self.held = True
        t = time.time() + STUCK_S
        while time.time() < t and not all(s in (3, 4) for _, s, _ in self.shm.threads()):
            time.sleep(0.0003)

    def release(self):
        self.held = False
        self.shm.set("hold", 0)

    # ------------------------------------------------------------------ quiescence
    def inputs_consumed(self):
        for d in list(self.fdst.values()):
            if d["kind"] == "in":
                c = d["cl"]
                if c is None or c.stall == "tx":
                    continue
                if c.closed:
                    return "%s: closed by its client, still open in the node" % d["name"]
                if d["nrecv"] < c.sent:
                    return "%s: node took %d of %d bytes" % (d["name"], d["nrecv"], c.sent)
            elif d["kind"] == "out":
                pe = self.peers.get(d["t"])
                if pe is None or pe.ls is None:
                    return "%s: connection to a dead target not given up" % d["name"]
                s = pe.socks.get(d["local"])
                if s is None:
                    return "%s: connect not completed" % d["name"]
                if s.closed:
                    return "%s: closed by the peer, still open in the node" % d["name"]
                if d["nrecv"] < s.sent:
                    return "%s: node took %d of %d bytes of answers" % (d["name"], d["nrecv"], s.sent)
        for c in self.clients:
            if not c.closed and not c.udp and not any(d.get("cl") is c for d in self.fdst.values()):
                return "%s: not accepted" % c.name if not c.name in self.owner and not any(
                    e.get("c") == c.name for e in self.events) else "%s: hung up by the node" % c.name
        return None

    def partials(self):
        out = []
        for d in self.fdst.values():
            if d["kind"] == "in" and (d["out"].partial()) and not (d["cl"] and (d["cl"].stall or d["cl"].closed)) and not d.get("lost"):
                out.append(d["name"])
            if d["kind"] == "out" and d["out"].buf and not d.get("lost"):
                s = self.sock_of(d)
                if s is not None and not s.stall:
                    out.append(d["name"])
        return out

    def settle(self, mark=True):
        """wait until the node has consumed every input and is idle; record an idle point"""
        while self.settle_once(quiet_ok=not mark):
            # timers that the node handles one by one, a few us apart, belong to the same instant of the trace
            nx, now = self.shm.get("next_exp"), self.shm.get("vnow")
            if self.held or nx == S.NONE64 or cell(nx) > cell(now):
                break
            self.shm.command("T", max(nx, now))
        if self.failed:
            return False
        if mark:
            gated = self.shm.get("disk_credit", True) == 0 and self.shm.get("disk_waiting") > 0
            self.ev(e="idle", gated=bool(gated), partial=self.partials(), cpu=self.shm.get("vcpu"))
        return True

    def outq(self):
        self.shm.command("Q")
        return self.shm.get("outq")

    def settle_once(self, quiet_ok=False):
        if self.failed:
            return False
        deadline = time.time() + STUCK_S
        hard = time.time() + 8 * STUCK_S
        why = "?"
        base = None
        while True:
            if self.p.poll() is not None:
                self.pull()
                self.ev(e="died", code=self.p.returncode)
                self.failed = True
                return False
            moved = self.pump()
            moved += self.pull()
            if moved:
                deadline = min(hard, time.time() + STUCK_S)
            why = self.inputs_consumed() or self.udp_consumed()
            th = self.shm.threads()
            if moved or why or self.shm.get("disk_credit") != 0 and any(s == 3 for _, s, _ in th) or any(
                    s == 1 for _, s, _ in th):
                base = None
                if not why:
                    why = "threads busy: %s" % th
            elif base is None:
                # with the send queues drained, nothing but a new input can make a loop go on
                if quiet_ok or self.outq() <= self.outq_max:
                    base = {i: w for i, _, w in self.shm.threads()}
                else:
                    why = "data stays in the kernel's send queues"
            elif all(w >= base[i] + 2 or s == 3 or s == 4 and self.held for i, s, w in th):
                break
            if time.time() > deadline:
                # a hung-up client is a fact of the trace; anything else is a stall
                self.ev(e="stuck", why=why)
                self.failed = True
                return False
            time.sleep(0.0005)
        return True

    def udp_consumed(self):
        if self.udp_got < self.udp_sent:
            return "node took %d of %d datagrams" % (self.udp_got, self.udp_sent)
        return None

    # ------------------------------------------------------------------ time
    def tick(self, us):
        """advance virtual time, stopping wherever a timer of the node is due"""
        target = self.shm.get("vnow") + us
        while not self.failed:
            nx = self.shm.get("next_exp")
            t = min(nx, target) if nx != S.NONE64 else target
            t = max(t, self.shm.get("vnow"))
            self.shm.command("T", t)
            self.settle()
            if t >= target:
                break

    def tick_raw(self, t):
        self.shm.command("T", t)

    # ------------------------------------------------------------------ stats / end
    def stat(self):
        """SIGUSR1: the totals the node reports"""
        if self.failed:
            return
        self.p.send_signal(signal.SIGUSR1)
        deadline = time.time() + STUCK_S
        while time.time() < deadline:
            with open(os.path.join(self.dir, "out"), "rb") as f:
                f.seek(self.statpos)
                txt = f.read().decode(errors="replace")
            i = txt.find("total-active-conns:")
            if i >= 0 and "\n" in txt[i:]:
                self.statpos += len(txt.encode())
                line = txt[i:].split("\n")[0]
                v = [int(x) for x in line.replace(",", " ").split() if x.lstrip("-").isdigit()]
                self.pull()
                self.ev(e="stat", conns=v[0], reqs=v[1])
                return v
            time.sleep(0.001)
        self.ev(e="stuck", why="no statistics printed")
        self.failed = True

    def finish(self, sig=signal.SIGTERM):
        """terminate; returns the trace"""
        if self.p.poll() is None:
            if not self.failed:
                self.pull()
                self.ev(e="term")
            self.p.send_signal(sig)
            if not self.failed:
                time.sleep(0.0005)       # let it arrive before whatever was held back goes on
            self.release()
            self.shm.set("disk_credit", -1)
            try:
                rc = self.p.wait(timeout=STUCK_S)
            except subprocess.TimeoutExpired:
                rc = None
                self.p.kill()
                self.p.wait()
            if not self.failed:
                self.pull()
                self.ev(e="exit", code=-999 if rc is None else rc)
        elif not self.failed:
            self.pull()
            self.ev(e="died", code=self.p.returncode)
        tr = self.trace()
        self.cleanup()
        return tr

    def trace(self):
        # a forward whose message was never completed has no content to judge
        ev = []
        for e in self.events:
            e = dict(e)
            if e["e"] == "fwd" and "f" not in e:
                continue
            ev.append(e)
        cfg = {k: v for k, v in self.cfg.items() if not k.startswith("_")}
        return {"cfg": cfg, "ev": ev}

    def cleanup(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for c in self.clients:
            c.sock.close()
        for pe in self.peers.values():
            if pe.ls:
                pe.ls.close()
            if pe.proto == "udp":
                pe.us.close()
            for s in pe.socks.values():
                s.sock.close()
        self.out.close()
        self.errf.close()
        self.shm.close()
        shutil.rmtree(self.dir, ignore_errors=True)
