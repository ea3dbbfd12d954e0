"""Runs a real dw_client with the shim, plays the server, and records the execution as a trace."""
import os
import random
import re
import select
import shutil
import socket
import subprocess
import time

import node
import scratch
import shm as S

PORT = 7000
STUCK_S = node.STUCK_S
CTIME = re.compile(r"^conn_time: (-?\d+) us, req_id: (-?\d+), thr_id: (-?\d+), sess_id: (-?\d+)$")
LINE = re.compile(r"^t: (-?\d+) us, elapsed: (-?\d+) us, req_id: (-?\d+), thr_id: (-?\d+), sess_id: (-?\d+)$")


class Conn:
    def __init__(self, name):
        self.name = name
        self.sock = None         # the server's end
        self.addr = None
        self.rx = 0              # bytes the client has taken
        self.tx = 0              # bytes the server has sent
        self.gone = False        # no use waiting for the client to take more
        self.closed = False      # closed by the server
        self.inb = bytearray()
        self.todo = []           # requests to be answered
        self.out = bytearray()   # bytes of replies not sent yet


class ClientRun:
    def __init__(self, exe, wire, ip, args, cfg, seed=1, proto="tcp", listen=True, logsz=8 << 20, clkstep=1, port=PORT,
                 recv_max=0, files=None, to=True, hosts=None, watch=False, env=None):
        self.w, self.ip, self.port, self.proto, self.cfg = wire, ip, port, proto, cfg
        self.dir = scratch.make("cli", True)
        for name, text in (files or {}).items():
            with open(os.path.join(self.dir, name), "w") as f:
                f.write(text)
        self.shm = S.Shm(os.path.join(self.dir, "shm"), logsz)
        self.shm.set("rng", seed & 0x7FFFFFFFFFFFFFFF)
        self.shm.set("clkstep", clkstep)
        self.shm.set("recv_max", recv_max)
        self.shm.set("watch", int(watch))
        self.watched = []
        self.ls = None
        self.us = None
        self.conns = {}          # name -> Conn
        self.by_addr = {}        # client's address -> Conn
        self.fds = {}            # fd -> dict
        self.nc = 0
        self.events = []
        self.at = 0
        self.mark = self.rest = 0
        self.sleeping = {}
        self.woke = {}           # thread -> when its last sleep ended
        self.raw = []            # requests as received by the server: (bytes)
        if proto == "udp":
            self.us = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.us.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
            self.us.bind((ip, port))
            self.us.setblocking(False)
        elif listen:
            self.listen()
        self.out = open(os.path.join(self.dir, "out"), "wb")
        self.errf = open(os.path.join(self.dir, "err"), "wb")
        a = [exe] + (["--to=%s://%s:%d" % (proto, ip, port)] if to else []) + list(args)
        self.argv = a[1:]
        env = dict(env or {}, PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=self.dir, DWSHIM_CLOCK="1")
        if hosts:
            env["DWSHIM_HOSTS"] = ",".join("%s=%s" % x for x in hosts.items())
        env.update(self.shm.env())
        self.p = subprocess.Popen(a, env=env, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.errf,
                                  pass_fds=[self.shm.child.fileno()], cwd=self.dir)
        self.shm.child.close()       # the end of the client ends the conversation with it

    # ------------------------------------------------------------------ server
    def listen(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((self.ip, self.port))
        s.listen(64)
        s.setblocking(False)
        self.ls = s

    def unlisten(self):
        self.serve()
        self.ls.close()
        self.ls = None

    def serve(self):
        """take whatever the client has sent"""
        n = 0
        while self.ls is not None:
            try:
                s, a = self.ls.accept()
            except OSError:
                break
            s.setblocking(False)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            c = self.conn("%s:%d" % a)
            c.sock = s
            n += 1
        if self.us is not None:
            while True:
                try:
                    m, a = self.us.recvfrom(1 << 17)
                except OSError:
                    break
                c = self.conn("%s:%d" % a)
                c.addr = a
                self.request(c, m)
                n += 1
        for c in list(self.conns.values()):
            if c.sock is None:
                continue
            while True:
                try:
                    b = c.sock.recv(1 << 18)
                except BlockingIOError:
                    break
                except OSError:
                    b = b""
                if not b:
                    c.sock.close()
                    c.sock = None
                    c.gone = True
                    break
                n += 1
                c.inb += b
                while len(c.inb) >= self.w.hdr:
                    size = self.w.head(c.inb)[1]
                    if size < self.w.hdr or len(c.inb) < size:
                        break
                    m = bytes(c.inb[:size])
                    del c.inb[:size]
                    self.request(c, m)
        return n

    def request(self, c, m):
        self.raw.append(m)
        if len(m) >= self.w.hdr:
            c.todo.append(self.w.head(m)[0])

    def conn(self, a):
        if a not in self.by_addr:
            self.by_addr[a] = Conn(None)
            self.conns[a] = self.by_addr[a]
        return self.by_addr[a]

    def reply(self, c, rid, size=None, status=0, cut=None):
        """answer one request; `cut`: send only that many bytes of what is to be sent"""
        m = self.w.reply(rid, size, status)
        if self.us is not None:
            self.us.sendto(m, c.addr)
            c.tx += len(m)
            return
        c.out += m
        self.flush(c, cut)

    def flush(self, c, cut=None):
        if c.sock is None:
            return
        b = bytes(c.out if cut is None else c.out[:cut])
        if not b:
            return
        try:
            n = c.sock.send(b)
        except BlockingIOError:
            n = 0
        except OSError:
            c.gone = True
            c.out.clear()
            return
        del c.out[:n]
        c.tx += n

    def close(self, c, reset=False):
        if c.sock is None:
            return
        if reset:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        c.sock.close()
        c.sock = None
        c.closed = True
        c.todo = []

    # ------------------------------------------------------------------ log
    def ev(self, **k):
        self.events.append(k)
        return k

    def pull(self):
        n = 0
        for r in self.shm.records():
            n += 1
            self.one(r)
        if self.shm.get("magic") == 0xDEAD:
            raise RuntimeError("shim log overflow")
        return n

    def one(self, r):
        t = r.type
        # readings of the clock by another thread may come in between
        self.at = at = max(self.at, r.vcpu)
        if t == S.OPT:
            self.watched.append(r)
        elif t == S.CONNECT:
            ok = r.rv == 0 or r.err == 115
            self.nc += 1
            name = "c%d" % self.nc
            self.ev(e="conn", w="w%d" % r.tid, c=name, ok=ok, at=at, lo=self.woke.get(r.tid, 0))
            if ok:
                c = self.conn(S.addr(r.b))
                if c.name is not None:       # the port is in use again
                    c = Conn(None)
                    self.by_addr[S.addr(r.b)] = self.conns[S.addr(r.b)] = c
                c.name = name
                self.fds[r.fd] = {"c": c, "name": name, "in": node.Stream(self.w, True), "out": node.FwdStream(self.w), "dead": False}
        elif t == S.SEND:
            d = self.fds.get(r.fd)
            if d is None or (r.rv < 0 and r.err == 11):
                return
            ok = r.rv >= 0
            data = r.data[:r.rv] if ok else r.data[:r.b]
            if d["dead"]:
                return
            if not ok:
                d["dead"] = True
            if r.kind == 4:
                e = self.ev(e="snd", c=d["name"], ok=ok, at=at, lo=self.woke.get(r.tid, 0))
                self.sent(e, data)
                return

            def fin(e, m):
                self.sent(e, m)
                e["ok"] = ok
            d["out"].feed2(data, lambda: self.ev(e="snd", c=d["name"], ok=True, at=at, lo=self.woke.get(r.tid, 0)), fin)
            if not ok and d["out"].slot is not None:
                d["out"].slot["e"] = "torn"
        elif t == S.RECV:
            d = self.fds.get(r.fd)
            if d is None:
                return
            if r.rv <= 0:
                if r.kind != 4 or r.rv < 0:
                    d["c"].gone = True
                    self.ev(e="lost", c=d["name"], at=at)
                return
            d["c"].rx += r.rv
            data = r.data[:r.rv]

            def fin(_, m):
                rid, size, st = self.w.head(m)
                self.ev(e="rcv", c=d["name"], id=rid, st=st, at=at)
            if r.kind == 4:
                fin(None, data)
            else:
                d["in"].feed(data, lambda *a: self.ev(e="garbage-in"), fin)
        elif t == S.SHUT:
            d = self.fds.get(r.fd)
            if d:
                d["c"].gone = True
                self.ev(e="shut", c=d["name"], at=at)
        elif t == S.CLOSE:
            d = self.fds.pop(r.fd, None)
            if d:
                d["c"].gone = True
                self.ev(e="close", c=d["name"], at=at)
        elif t == S.SLEEP:
            if r.b == 0:
                self.sleeping[r.tid] = r.a
            else:
                self.sleeping.pop(r.tid, None)
                self.woke[r.tid] = min(at, r.vcpu)

    def sent(self, e, m):
        ch = self.w.decode_chain(m) if m is not None else None
        if ch is None:
            e["e"] = "garbage"
            return
        rid, size, st = self.w.head(m)
        e.update(id=rid if rid < 1 << 31 else -1, n=size, ch=ch)

    # ------------------------------------------------------------------ waiting
    def tasks(self):
        """what the threads of the client are doing: None when one of them is not waiting"""
        out = {}
        base = "/proc/%d/task" % self.p.pid
        try:
            for t in os.listdir(base):
                with open("%s/%s/status" % (base, t)) as f:
                    s = f.read()
                st = s[s.index("State:") + 7]
                if st != "S":
                    return None
                out[t] = s[s.index("voluntary_ctxt"):]
        except (OSError, ValueError):
            return None
        return out

    def settled(self):
        return all(c.gone or c.name is None or (c.tx == c.rx and not c.closed) for c in self.conns.values())

    def quiet(self):
        """wait until the client waits for time or for the server; False when it has exited"""
        t0 = time.time()
        while True:
            if self.p.poll() is not None:
                self.serve()
                self.pull()
                return False
            if self.shm.get("ctltid") and not self.serve() and not self.pull():
                a = self.tasks()
                if a is not None and not self.serve() and not self.pull() and self.settled():
                    if self.tasks() == a and not self.pull():
                        rt = self.shm.get("rt")
                        if any(v <= rt for v in self.sleeping.values()):
                            self.tick(rt)        # it was only waiting for the clock it reads itself
                            continue
                        self.at = max(self.at, rt)
                        return True
            if time.time() - t0 > STUCK_S:
                self.ev(e="stuck")
                return None
            time.sleep(0.0002)

    def tick(self, t):
        try:
            self.shm.command("R", t)
        except OSError:
            pass                     # it has exited

    def window(self):
        """what was observed since the last time the client was at rest has been done by now"""
        for e in self.events[self.mark:]:
            if e["e"] in ("rcv", "conn"):
                e["hi"] = self.at
            if e["e"] in ("snd", "conn"):
                e["lo"] = min(max(self.rest, e["lo"]), e["at"])
        self.mark = len(self.events)
        self.rest = self.at

    def note_quiet(self):
        self.window()
        self.ev(e="quiet", at=self.at)
        self.mark = len(self.events)

    # ------------------------------------------------------------------ end
    def stdout(self):
        self.out.flush()
        with open(os.path.join(self.dir, "out"), "rb") as f:
            return f.read().decode(errors="replace")

    def finish(self):
        """the lines printed and the exit status"""
        self.pull()
        self.at = max(self.at, self.shm.get("rt"))
        self.window()
        if self.shm.pos < self.shm.get("log_off"):
            # killed in the middle of a call by another thread's exit
            self.torn = True
        for l in self.stdout().split("\n"):
            if l.startswith("conn_time:"):
                m = CTIME.match(l)
                v = [max(-2000000000, min(int(x), 2000000000)) for x in m.groups()] if m else None
                self.ev(e="ctime", el=v[0], id=v[1], thr=v[2], sess=v[3]) if m else self.ev(e="badline", text=l[:80])
            elif l.startswith("t:"):
                m = LINE.match(l)
                if m:
                    v = [max(-2000000000, min(int(x), 2000000000)) for x in m.groups()]
                    self.ev(e="line", t=v[0], el=v[1], id=v[2], thr=v[3], sess=v[4])
                else:
                    self.ev(e="badline", text=l[:80])
        self.ev(e="exit", code=self.p.returncode)

    def trace(self):
        return {"cfg": self.cfg, "ev": self.events, "argv": self.argv}

    def cleanup(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        for c in self.conns.values():
            if c.sock:
                c.sock.close()
        for s in (self.ls, self.us):
            if s:
                s.close()
        self.out.close()
        self.errf.close()
        self.shm.close()
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------------- scenarios
def ramp(rng, step):
    """(rates, how they are written, does the sequence start over, files)"""
    while True:
        k = rng.choice(("up", "up", "down", "gup", "gdown", "file"))
        n = rng.randint(1, 5)
        if k in ("up", "down"):
            a, d = rng.randint(1, 12), rng.randint(1, 10)
            v = [a + d * i for i in range(n)]
            t = "aseq:min=%d,max=%d,step=%s%d" % (v[0], v[-1], "-" if k == "down" else "", d)
        elif k in ("gup", "gdown"):
            a, q = rng.randint(1, 6), 2 if k == "gdown" else rng.choice((2, 2, 3, 10))
            v = [a * q ** i for i in range(n)]
            t = "gseq:min=%d,max=%d" % (v[0], v[-1]) + (",step=0.5" if k == "gdown" else "" if q == 2 and rng.random() < .5 else ",step=%d" % q)
        else:
            v = [rng.randint(1, 15) for _ in range(n)]
        if k in ("down", "gdown"):
            v.reverse()
        if sum(v) * step <= 60:
            break
    if k == "file":
        return v, "file:rates", True, {"rates": "".join("%d\n" % x for x in v)}
    return v, t, False, {}


def scenario(ctx, seed, o):
    """o: what the environment may do (close, refuse, error, cut, late), shapes of the run"""
    rng = random.Random(seed)
    w = ctx.wire()
    nt = rng.choice(o.get("nt", (1, 1, 1, 2, 3)))
    ns = rng.choice(o.get("ns", (1, 1, 2, 3, 4)))
    want = rng.randint(1, o.get("max", 10))
    pps = -(-want // ns)
    while nt * ns > 24:
        nt -= 1
    proto = rng.choice(o.get("proto", ("tcp",)))
    kind = rng.choice(o.get("period", ("p", "p", "r", "arith")))
    files = {}
    step, rates, cycle, auto, per = 0, [], False, False, []
    args = ["--ns=%d" % ns] if ns > 1 or rng.random() < .3 else []
    if kind == "ramp":
        step = rng.choice((1, 1, 1, 2, 3))
        rates, text, cycle, files = ramp(rng, step)
        args += ["-r" + text if rng.random() < .5 else "--rate=" + text, "--%s=%d" % (rng.choice(("rss", "rate-step-secs")), step)]
        auto = rng.random() < .5
        want = sum(rates) * step if auto else rng.randint(1, sum(rates) * step + 6)
        pps = -(-want // ns)
    args.append("-n" + ("auto" if auto else "%d" % want))
    if nt > 1:
        args.append("--nt=%d" % nt)
    if kind == "ramp":
        pass
    elif kind == "p":
        p = rng.choice((1000, 2000, 5000, 20000, 7000))
        per = [p]
        args.append(rng.choice(("-p%d" % p, "--period=%dus" % p, "--period=%dms" % (p // 1000))))
    elif kind == "r":
        r = rng.choice((10, 50, 100, 200, 1000))
        per = [1000000 // r]
        args.append("-r%d" % r)
    else:
        a, st, k = rng.choice((1000, 3000)), rng.choice((1000, 2000)), rng.randint(1, 4)
        per = [a + st * i for i in range(k + 1)] + [a + st * k] * 60    # the last value stays
        args.append("--period=aseq:min=%d,max=%d,step=%d" % (a, a + st * k, st))
    cu = rng.choice((100, 1000, 5))
    args.append("-C%d" % cu)
    rn = rng.choice((512, 16, 100, 4000))
    if rn != 512 or rng.random() < .2:
        args.append("-R%d" % rn)
    ch = [{"op": "C", "us": cu}, {"op": "R", "n": rn, "ack": 1}]
    need = w.hdr + w.chain_len(ch)
    ps = rng.choice((1024, 1024, 64, 200, 20, 9000, 60000) if o.get("big", True) else (1024, 64))
    if proto == "udp":
        ps = min(ps, 9000)
    if ps != 1024:
        args.append("--ps=%d" % ps)
    ps = max(ps, need)
    stag = kind in ("p", "r", "ramp") and rng.random() < o.get("stag", .05)
    if stag:
        args.append("--stag-send")
    tries, pause = 1, 200
    if rng.random() < o.get("retry", .5):
        tries, pause = rng.randint(1, 5), rng.choice((200, 300, 1000))
        args += ["--retry-num=%d" % tries, "--retry-period=%d" % pause]
    pso = rng.random() < o.get("pso", .4)
    if pso:
        args.append(rng.choice(("--pso", "--per-session-output")))
    spin = rng.random() < o.get("spin", 0)
    if spin:
        args.append("--ws")
    if rng.random() < o.get("nb", .1):
        args.append("--non-block")
        nb = True
    else:
        nb = False
    if rng.random() < .2:
        args.append("--nd=%d" % rng.randint(0, 1))
    ct = rng.random() < o.get("ct", .2)
    if ct:
        args.append("--conn-times")
    rng.shuffle(args)
    pre = [i for i, a in enumerate(args) if a.startswith("-C") or a.startswith("-R")]
    if len(pre) == 2 and args[pre[0]].startswith("-R"):      # commands stay in order
        args[pre[0]], args[pre[1]] = args[pre[1]], args[pre[0]]
    cfg = {"nt": nt, "ns": ns, "pps": pps, "per": per, "tries": tries, "pause": pause * 1000, "lo": ps, "hi": ps, "ch": ch,
           "pso": pso, "grain": 3000 if spin else 300, "ramp": step * 1000000, "rates": rates, "cycle": cycle, "auto": auto,
           "stag": 200000 if stag else -1, "ct": ct}
    closes = rng.random() < o.get("close", .3) and proto == "tcp"
    errors = rng.random() < o.get("error", .4)
    order = rng.choice(("fifo", "any", "any", "lifo"))
    patience = rng.choice((0, 0, .3, .7, .95))        # how long replies are held back
    refuse = rng.random() < o.get("refuse", .3) and proto == "tcp" and not nb and tries > 1 and not spin
    dead = refuse and rng.random() < .25
    r = ClientRun(ctx.exe("dw_client"), w, ctx.ip(), args, cfg, seed, proto=proto, listen=not refuse, clkstep=10 if spin else 1,
                  recv_max=rng.choice((0, 0, 5, 40, 600)) if o.get("cut", True) else 0, files=files)
    try:
        left = 60 + 40 * nt * ns * pps
        lastns = 0
        nfail = 0
        while True:
            left -= 1
            if left < 0:
                patience = 0
            if left < -400 - 60 * nt * ns * pps:
                r.ev(e="stuck")
                break
            q = r.quiet()
            if q is None or q is False:
                break
            r.note_quiet()
            if refuse and not dead:
                f = sum(1 for e in r.events if e["e"] == "conn" and not e["ok"])
                if r.ls is None and f and rng.random() < .5:
                    r.listen()
                elif r.ls is not None and rng.random() < .08:
                    r.unlisten()
            did = False
            for _ in range(rng.choice((1, 1, 2, 4))):
                live = [c for c in r.conns.values() if (c.sock is not None or c.addr) and (c.todo or c.out)]
                a = rng.random()
                if live and a > patience:
                    c = rng.choice(live)
                    if c.out and rng.random() < .7:
                        r.flush(c, rng.choice((None, 1, rng.randint(1, 30))))
                    elif c.todo:
                        i = 0 if order == "fifo" else -1 if order == "lifo" else rng.randrange(len(c.todo))
                        st = rng.choice((0, -1, 1, -5)) if errors else 0
                        sz = rng.choice((None, 16, rn, rng.randint(16, 3000), 100000 if proto == "tcp" else 900))
                        r.reply(c, c.todo.pop(i), sz, st, rng.choice((None, None, rng.randint(1, 40))))
                    elif c.out:
                        r.flush(c)
                    did = True
                elif closes and rng.random() < .15:
                    l2 = [c for c in r.conns.values() if c.sock is not None and not c.gone]
                    if l2:
                        r.close(rng.choice(l2), rng.random() < .3)
                        did = True
            dl = [t for t in r.sleeping.values()]
            if dl and (not did or rng.random() < .5):
                if did and rng.random() < .6:
                    if not r.quiet():
                        break
                    r.window()
                    dl = [t for t in r.sleeping.values()] or dl
                t = min(dl)
                if rng.random() < .3 and t > r.at + 2:
                    t = rng.randint(r.at + 1, t)
                elif rng.random() < .1:
                    t = max(dl)
                r.tick(t)
                did = True
            if not did and not any(c.todo or c.out for c in r.conns.values() if c.sock is not None or c.addr):
                if refuse and r.ls is None and not dead:
                    continue
                r.ev(e="stuck")
                break
        if r.p.poll() is not None:
            r.finish()
        return r.trace()
    finally:
        r.cleanup()
