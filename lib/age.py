"""Long use of a node: thousands of conversations of one kind, each over before the recorded ones go on."""
import collections
import select
import socket
import struct
import threading
import time

import node as N

NOWHERE = "255.255.255.255:7000"
BURST = 40000            # more than fits in anything between two threads, less than can be held
REQUESTS = 66000         # more than a node can hold at a time
VISITS = 8220            # more than it can be connected to at a time


class Broken(Exception):
    pass


class Aging:
    def __init__(self, n, rng):
        self.n, self.w, self.rng = n, n.w, rng
        self.ip = n.ip.rsplit(".", 1)[0]
        self.id = rng.randint(0, 1 << 20)
        self.right = self.wrong = 0
        self.off = n.w.L["message_t.req_id"][0]
        self.at = {}             # of a target: the node's connections to it
        self.open = []
        self.came = []
        self.met = 0
        self.end = time.time() + 60
        self.buf = {}

    # ---------------------------------------------------------------- the environment
    def conn(self):
        s = socket.socket()
        s.bind((self.ip + ".9", 0))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(N.STUCK_S)
        s.connect((self.n.ip, self.n.port))
        self.open.append(s)
        self.met += 1
        return s

    def target(self, j):
        ls = socket.socket()
        ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        ls.bind((self.ip + ".%d" % (200 + j), N.PORT))
        ls.listen(64)
        ls.settimeout(N.STUCK_S)
        self.at[ls] = []
        return ls, "%s.%d:%d" % (self.ip, 200 + j, N.PORT)

    def take(self, ls, k):
        """the next k messages to a target, whichever connections they come on: (connection, id)"""
        while len(self.came) < k:
            r, _, _ = select.select([ls] + self.at[ls], [], [], N.STUCK_S)
            if not r:
                raise Broken("%d of %d forwarded" % (len(self.came), k))
            for s in r:
                if s is ls:
                    q, _ = ls.accept()
                    q.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    q.settimeout(N.STUCK_S)
                    self.open.append(q)
                    self.at[ls].append(q)
                else:
                    self.came += [(s, x[0]) for x in self.messages(s)]
        out, self.came = self.came[:k], self.came[k:]
        return out

    def leave(self, s, rst=False):
        if rst:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
        self.open.remove(s)
        self.buf.pop(s, None)

    def fwd(self, t, to=0, rt=0, op="F", ps=None):
        sub = [{"op": "R", "n": 64, "ack": 1}]
        return {"op": op, "t": t, "ps": ps or self.w.hdr + self.w.chain_len(sub) + 8, "to": to, "rt": rt, "sk": 1, "pr": "tcp"}

    def chain(self, *cmds):
        out = []
        for c in cmds:
            out.append(c)
            if c["op"] == "F":
                out.append({"op": "R", "n": 64, "ack": 1})
        return out + [{"op": "R", "n": self.w.hdr + self.w.cmd + 20, "ack": 1}]

    # ---------------------------------------------------------------- conversations
    def ask(self, s, ch, k, size=None):
        """k requests in a row; their ids"""
        m = bytearray(self.w.message(0, ch, size))
        out, ids = [], []
        for _ in range(k):
            self.id = (self.id + 1) & 0x7FFFFFFF
            struct.pack_into("<I", m, self.off, self.id)
            out.append(bytes(m))
            ids.append(self.id)
        s.sendall(b"".join(out))
        return ids

    def messages(self, s):
        """what has come, after waiting for more: (id, size, status) of whole messages"""
        b = self.buf.setdefault(s, bytearray())
        d = s.recv(1 << 18)
        if not d:
            raise Broken("closed by the node")
        b += d
        out, at = [], 0
        while len(b) - at >= self.w.hdr:
            h = self.w.head(b, at)
            if h[1] < self.w.hdr or h[1] > 1 << 24:
                raise Broken("size %d" % h[1])
            if len(b) - at < h[1]:
                break
            out.append(h)
            at += h[1]
        del b[:at]
        return out

    def replies(self, s, ids, status=0):
        want = collections.Counter(ids)
        got = []
        while len(got) < len(ids):
            got += self.messages(s)
        for i, n, st in got:
            if want[i] > 0 and n == self.w.hdr + self.w.cmd + 20 and st == status:
                want[i] -= 1
                self.right += 1
            else:
                self.wrong += 1

    def answer(self, got):
        by = collections.defaultdict(list)
        for s, i in got:
            by[s].append(self.w.reply(i))
        for s, l in by.items():
            s.sendall(b"".join(l))

    def batches(self, n, k):
        while n > 0:
            if time.time() > self.end:
                raise Broken("too slow")
            yield min(k, n)
            n -= k

    def quiet(self):
        """until the node has taken everything in and has nothing to do"""
        shm, end = self.n.shm, time.time() + N.STUCK_S
        base = None
        while time.time() < end:
            if self.n.p.poll() is not None:
                raise Broken("died")
            th = shm.threads()
            if any(s == 1 for _, s, _ in th):
                base = None
            elif base is None:
                base = {i: w for i, _, w in th}
            elif all(w >= base[i] + 2 for i, _, w in th):
                return
            time.sleep(0.0003)
        raise Broken("never idle")

    def wait(self):
        """until no timeout is pending"""
        self.quiet()
        while self.n.shm.get("next_exp") != N.S.NONE64:
            self.n.shm.command("T", self.n.shm.get("next_exp") + 2500)
            self.quiet()

    # ---------------------------------------------------------------- kinds of use
    def answered(self, n):
        """requests answered at once"""
        cs = [self.conn() for _ in range(2 * self.n.nt)]
        ch = self.chain()
        for k in self.batches(n, 250 * len(cs)):
            part = [(s, self.ask(s, ch, k // len(cs) + (i < k % len(cs)))) for i, s in enumerate(cs)]
            for s, ids in part:
                self.replies(s, ids)

    def stored(self, n):
        """the same bytes over and over"""
        s = self.conn()
        ch = self.chain({"op": "S", "n": 16, "off": 0, "sync": 0})
        for k in self.batches(n, 250):
            self.replies(s, self.ask(s, ch, k))

    def burst(self, n, *cmds):
        """a great many at once"""
        s = self.conn()
        ids = []
        t = threading.Thread(target=lambda: ids.extend(self.ask(s, self.chain(*cmds), n)))
        first = self.id
        t.start()
        self.replies(s, [(first + 1 + i) & 0x7FFFFFFF for i in range(n)])
        t.join()

    def stores(self, n):
        self.burst(n, {"op": "S", "n": 16, "off": 0, "sync": 0})

    def loads(self, n):
        self.burst(n, {"op": "L", "n": 16, "off": 0})

    def visits(self, n):
        """clients that come, ask once and go"""
        ch = self.chain()
        for i in range(VISITS):
            s = self.conn()
            self.replies(s, self.ask(s, ch, 1))
            self.leave(s, rst=i % 3 == 0)

    def broken(self, n):
        """clients that go in the middle of something"""
        m = self.w.message(1, self.chain())
        for i in range(VISITS):
            s = self.conn()
            s.sendall((m[:5], m, m[:-1], m + m[:20])[i % 4])
            self.leave(s, rst=i % 2 == 0)
            self.right += 1
            if i % 4 == 3:           # as many as can wait to be accepted
                self.quiet()

    def forwarded(self, n, to=0):
        ls, t = self.target(0)
        s = self.conn()
        ch = self.chain(self.fwd(t, to))
        for k in self.batches(n, 250):
            ids = self.ask(s, ch, k)
            self.answer(self.take(ls, k))
            self.replies(s, ids)

    def intime(self, n):
        """forwards with a timeout, answered before it runs out"""
        self.forwarded(n, 60000000)

    def full(self, n):
        """more than there is room for, until answers make some"""
        ls, t = self.target(0)
        s = self.conn()
        first, left = self.id, n
        b = threading.Thread(target=lambda: self.ask(s, self.chain(self.fwd(t)), n, self.rng.choice((700000, 1 << 20, 5000000))))
        b.start()
        while left:
            got = self.take(ls, 1)
            while self.came or select.select([ls] + self.at[ls], [], [], 0.05)[0]:
                got += self.take(ls, 1)
            self.answer(got)
            left -= len(got)
        b.join()
        self.replies(s, [(first + 1 + i) & 0x7FFFFFFF for i in range(n)])

    def expired(self, n):
        """forwards that are not answered in time, twice"""
        ls, t = self.target(0)
        s = self.conn()
        ch = self.chain(self.fwd(t, 2000, 1))
        self.n.shm.set("mute", 2)
        for k in self.batches(n, 1000):
            ids = self.ask(s, ch, k)
            first = self.take(ls, k)
            self.wait()
            self.take(ls, k)
            self.replies(s, ids, -1)
            if self.rng.random() < 0.5:
                self.answer(first)

    def unreachable(self, n):
        """forwards to where nothing can be sent"""
        self.refused(n, NOWHERE)

    def refused(self, n, t=None):
        """forwards to nobody"""
        t = t or "%s.%d:%d" % (self.ip, 220, N.PORT)
        s = self.conn()
        ch = self.chain(self.fwd(t, 2000, 0))
        self.n.shm.set("mute", 3)
        for k in self.batches(n, 8):
            self.replies(s, self.ask(s, ch, k), -1)

    def late(self, n):
        """clients that do not wait for what they asked for"""
        ls, t = self.target(0)
        ch = self.chain(self.fwd(t))
        for k in self.batches(n, 250):
            s = self.conn()
            self.ask(s, ch, k)
            got = self.take(ls, k)
            self.leave(s, rst=self.rng.random() < 0.5)
            if self.rng.random() < 0.7:
                self.quiet()
            self.answer(got)
            self.right += k

    def multi(self, n):
        """two targets, the first answer is enough"""
        tt = [self.target(0), self.target(1)]
        s = self.conn()
        ch = [self.fwd(t, op="M") for _, t in tt] + [{"op": "R", "n": 64, "ack": 1}] + self.chain()
        for k in self.batches(n, 250):
            ids = self.ask(s, ch, k)
            got = [self.take(ls, k) for ls, _ in tt]
            a = self.rng.randint(0, 1)
            self.answer(got[a])
            self.replies(s, ids)
            self.answer(got[1 - a])

    def dropped(self, n):
        """targets that hang up with requests waiting for them; the requests go when their client does"""
        ls, t = self.target(0)
        ch = self.chain(self.fwd(t))
        for k in self.batches(n, 8):
            s = self.conn()
            self.ask(s, ch, k)
            self.take(ls, k)
            for q in self.at[ls]:
                self.leave(q, rst=self.rng.random() < 0.5)
            self.at[ls] = []
            if self.rng.random() < 0.5:
                self.quiet()
            self.leave(s, rst=self.rng.random() < 0.5)
            self.quiet()
            self.right += k

    def datagrams(self, n):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        s.bind((self.ip + ".9", 0))
        s.connect((self.n.ip, self.n.port))
        s.settimeout(N.STUCK_S)
        self.open.append(s)
        ch = self.chain()
        m = bytearray(self.w.message(0, ch))
        for k in self.batches(n, 40):
            want = collections.Counter()
            for _ in range(k):
                self.id = (self.id + 1) & 0x7FFFFFFF
                struct.pack_into("<I", m, self.off, self.id)
                s.send(m)
                want[self.id] += 1
            for _ in range(k):
                i, size, st = self.w.head(s.recv(1 << 16))
                if want[i] > 0 and size == self.w.hdr + self.w.cmd + 20 and st == 0:
                    want[i] -= 1
                    self.right += 1
                else:
                    self.wrong += 1


TIMED = ("expired", "refused", "unreachable")         # these let time pass


def age(n, kind, rng):
    """the event that stands for all of it"""
    knobs = ("recv_max", "send_max", "send_eagain", "disk_short", "eintr")
    was = {k: n.shm.get(k) for k in knobs}
    for k in knobs:
        n.shm.set(k, 0)
    n.pull()
    n.shm.set("mute", 1)
    a = Aging(n, rng)
    count = {"visits": VISITS, "broken": VISITS, "burst": BURST, "stores": BURST, "loads": BURST, "full": 40}.get(kind, REQUESTS)
    why = ""
    try:
        getattr(a, kind)(count)
        while n.cfg["deal"] and a.met % n.nt:        # whose turn it is stays the same
            a.conn()
            a.quiet()
        for s in list(a.open):
            a.leave(s)
        a.quiet()
    except (OSError, Broken) as e:
        why = "%s: %s" % (type(e).__name__, e)
    for s in list(a.open) + list(a.at):
        s.close()
    if not why:
        try:
            a.quiet()
        except Broken as e:
            why = str(e)
    n.shm.set("mute", 0)
    for k in knobs:
        n.shm.set(k, was[k])
    n.ev(e="age", kind=kind, n=count, right=a.right, wrong=a.wrong + (1 if why else 0), why=why)
    c = N.cell(n.shm.get("vnow"))
    if c > n.cell:
        n.cell = c
        n.ev(e="tick", t=c * N.GRID)


def flood(n, rng):
    """a great many requests for the disk are under way, and it does not move"""
    n.pull()
    n.shm.set("mute", 1)
    n.shm.set("disk_credit", 0)
    a = Aging(n, rng)
    s = a.conn()
    threading.Thread(target=lambda: a.ask(s, a.chain({"op": "S", "n": 16, "off": 0, "sync": 0}), 6000), daemon=True).start()
    end = time.time() + N.STUCK_S
    while time.time() < end and not n.shm.get("disk_waiting"):
        time.sleep(0.001)
    time.sleep(0.05)                     # the worker has filled what it can
    n.ev(e="flood")                      # only the end is of interest from here on
    return a
