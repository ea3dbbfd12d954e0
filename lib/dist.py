"""Numeric options written as constants, sequences, files and random distributions, seen through the real client's requests."""
import random

import client

TIME = ("", "", "us", "ms", "s", "k", "ns", "m", "G")
BYTES = ("", "", "b", "k", "K", "kb", "M", "m", "MB", "B", "G", "g")
MULT = {"": 1, "b": 1, "B": 1, "us": 1, "ms": 1000, "k": 1000, "K": 1000, "kb": 1000, "kB": 1000, "KB": 1000,
        "m": 10 ** 6, "M": 10 ** 6, "mb": 10 ** 6, "MB": 10 ** 6, "s": 10 ** 6, "g": 10 ** 9, "G": 10 ** 9}
LIM = 2 ** 31 - 1


class Source:
    """builds one distribution: its record for the specification and how it is written"""

    def __init__(self, rng, time, lo=0, hi=10 ** 9, name=""):
        self.rng, self.time, self.lo, self.hi = rng, time, lo, hi
        self.q = 1
        self.files = {}
        self.name = name

    def number(self, v, u=None):
        """v (in 1/q) as a number with some suffix"""
        q = self.q
        us = [x for x in (TIME if self.time else BYTES) if (x == "ns" and 0 <= v * 1000 <= LIM) or (x != "ns" and v % MULT[x] == 0)] \
            if u is None else [u]
        u = self.rng.choice(us)
        n = v * 1000 if u == "ns" else v // MULT[u]
        t = ("%d" % (n // q)) if n % q == 0 else ("%.6f" % (n / q)).rstrip("0")
        if n % q == 0 and self.rng.random() < .1:
            t = self.rng.choice(("%d.0", "%de0", "+%d")) % (n // q)
        return {"n": n, "u": u}, t + u

    def rec(self, k, **kw):
        d = {"k": k, "q": self.q, "val": [], "min": [], "max": [], "step": [], "file": [], "unit": ""}
        d.update(kw)
        return d

    def pick(self, top=None):
        r = self.rng
        top = min(top or self.hi, self.hi)
        e = r.choice((1, 10, 1000, 10 ** 5, 10 ** 6, 10 ** 9))
        v = r.randint(0, max(1, min(top, e * 9)))
        if r.random() < .5:
            v = v // e * e
        return max(self.lo, min(v, top))

    def parts(self, head, ps):
        self.rng.shuffle(ps)
        return head + ":" + ",".join(ps)

    def fixed(self):
        r = self.rng
        self.q = r.choice((1, 1, 1, 2, 4))
        v = self.pick(min(self.hi, LIM // self.q)) * self.q + r.randrange(self.q)
        n, t = self.number(v)
        return self.rec("fixed", val=[n]), t

    def aseq(self):
        r = self.rng
        self.q = r.choice((1, 1, 1, 4))
        top = min(self.hi, LIM // self.q // 2)
        a, b = sorted((self.pick(top) * self.q, self.pick(top) * self.q))
        st = r.choice((1, r.randint(1, 50), max(1, (b - a) // r.randint(1, 20)), (b - a) + 5, 1000)) * r.choice((1, 1, -1))
        if r.random() < .3:
            st = st * self.q
        if r.random() < .2 and self.q == 4:
            st = r.choice((1, 2, 3, -1))
        st = max(b - LIM, min(LIM - b, st))
        kw, ps = {}, []
        for k, v in (("min", a), ("max", b)):
            n, t = self.number(v)
            kw[k] = [n]
            ps.append("%s=%s" % (k, t))
        if r.random() < .8:
            n, t = self.number(abs(st))
            if st < 0:
                n["n"], t = -n["n"], "-" + t.lstrip("+")
            kw["step"] = [n]
            ps.append("step=" + t)
        else:
            st = self.q
        if r.random() < .35:
            n, t = self.number(r.randint(a, b) if r.random() < .8 else max(self.lo * self.q, (b + 3) if st < 0 else a - 1 if a else a))
            kw["val"] = [n]
            ps.append(r.choice(("", "avg=")) + t)
            if r.random() < .3:                  # only the bound it runs into
                k = "min" if st > 0 else "max"
                kw.pop(k)
                ps = [p for p in ps if not p.startswith(k)]
        return self.rec("aseq", **kw), self.parts("aseq", ps)

    def gseq(self):
        r = self.rng
        while True:
            num, den = r.choice(((2, 1), (3, 1), (10, 1), (3, 2), (5, 4), (1, 2), (1, 4), (3, 4), (1, 1)))
            self.q = 1 if den == 1 else 1024
            top = min(self.hi, LIM // self.q)
            a, b = sorted((self.pick(top), self.pick(top)))
            if r.random() < .5:
                b = min(top, a * r.choice((1, 4, 8, 30)))
            a, b = a * self.q, b * self.q
            v = a if num >= den else b
            seq, ok = [v], a > 0 and a <= b
            for _ in range(60):
                if not ok or v * num > LIM or (v * num) % den:
                    ok = False
                    break
                v = max(a, min(b, v * num // den))
            if ok:
                break
        kw, ps = {}, []
        for k, v in (("min", a), ("max", b)):
            n, t = self.number(v)
            kw[k] = [n]
            ps.append("%s=%s" % (k, t))
        if (num, den) != (2, 1) or r.random() < .6:
            kw["step"] = [{"n": num, "u": den}]
            ps.append("step=%g" % (num / den))
        if r.random() < .3:
            n, t = self.number(a if num >= den else b)
            kw["val"] = [n]
            ps.append(r.choice(("", "avg=")) + t)
            if r.random() < .5:
                k = "min" if num >= den else "max"
                kw.pop(k)
                ps = [p for p in ps if not p.startswith(k)]
        return self.rec("gseq", **kw), self.parts("gseq", ps)

    def file(self):
        r = self.rng
        unit = r.choice(("", "", "", "k", "K", "m", "M", "us", "ms", "s", "ns") if self.time else ("", "", "", "k", "K", "m", "M"))
        self.q = r.choice((1, 1, 4)) if unit != "ns" else 1
        col = r.choice((0, 0, 0, 1, 2, 4))
        sep = r.choice((",", ";", " ", "|", ":")) if col or r.random() < .3 else ","
        if sep == "," and col and r.random() < .5:
            sep = ";"
        m = 1 if unit == "ns" else MULT[unit]
        top = max(1, min(self.hi // m, LIM // self.q // m)) if unit != "ns" else 10 ** 6
        rows, recs = [], []
        for _ in range(r.choice((1, 2, 3, 7, 16, 17, 33))):
            if r.random() < .1:
                rows.append(sep.join(["x", "# note", "--", "n/a", "t", "q"][:col + 1]))
                recs.append({"ok": False, "n": 0})
                continue
            n = max(-(-self.lo // m), r.randint(0, r.choice((1, 20, 1000, top)))) * self.q + r.randrange(self.q)
            n = min(n, top * self.q)
            if unit == "ns":
                n *= 1000
            t = "%d" % (n // self.q) if n % self.q == 0 else ("%.6f" % (n / self.q)).rstrip("0")
            cells = ["%d" % r.randint(0, 99) for _ in range(col)] + [r.choice(("", "", " ") if sep != " " else ("",)) + t]
            cells += ["%d" % r.randint(0, 99) for _ in range(r.choice((0, 0, 2)))]
            rows.append(sep.join(cells))
            recs.append({"ok": True, "n": n})
        if not any(x["ok"] for x in recs):
            return self.file()
        f = "vals%s" % self.name
        self.files[f] = "\n".join(rows) + r.choice(("\n", "", "\n\n" if not col else "\n"))
        ps = [f]
        if unit:
            ps.append("unit=" + unit)
        if col or r.random() < .2:
            ps.append("col=%d" % col)
        if sep != ",":
            ps.append("sep=" + sep)
        kw = {"file": recs, "unit": unit}
        good = [x["n"] // 1000 if unit == "ns" else x["n"] * m for x in recs if x["ok"]]
        if r.random() < .35:
            lo, hi = sorted((r.choice(good), r.choice(good)))
            for k, v in (("min", lo), ("max", hi)):
                if r.random() < .8:
                    n, t = self.number(v)
                    kw[k] = [n]
                    ps.append("%s=%s" % (k, t))
        return self.rec("file", **kw), self.parts("file", ps)

    def random(self):
        r = self.rng
        k = r.choice(("unif", "unif", "exp", "norm", "lognorm", "gamma"))
        top = min(self.hi, 10 ** 8)
        lo = max(self.lo, r.choice((0, 1, 5, 20, 1000, r.randint(0, top // 3))))
        hi = min(top, lo + r.choice((1, 2, 10, 1000, top)))
        if k == "unif" and r.random() < .1:
            hi = lo
        kw, ps = {}, []
        for x, v in (("min", lo), ("max", hi)):
            n, t = self.number(v)
            kw[x] = [n]
            ps.append("%s=%s" % (x, t))
        avg = r.randint(lo, hi) or 1                   # keeps the rejection loops short
        n, t = self.number(avg)
        std = "%d" % max(1, r.choice((1, 3, hi - lo)))
        if k == "exp":
            if r.random() < .3:
                ps = [p for p in ps if not p.startswith("max")]
                kw.pop("max")
            if self.lo == 0 and r.random() < .5:
                ps = [p for p in ps if not p.startswith("min")]
                kw.pop("min", None)
            n, t = self.number(max(avg, (lo + hi) // 3, 1))
            if hi - lo < n["n"] * MULT.get(n["u"], 1) // 50:
                return self.random()
            ps.append(r.choice(("", "avg=")) + t)
        elif k in ("norm", "lognorm"):
            ps += [r.choice(("", "avg=")) + t, "std=" + std]
        elif k == "gamma":
            kk = r.randint(1, 4)
            sc = max(1, (lo + hi) // 2 // kk)
            if hi - lo < (lo + hi) // 20:
                return self.random()
            ps += ["k=%d" % kk, "scale=%d" % sc]
        return self.rec(k, **kw), self.parts(k, ps)


HOW = {                       # option, is it a time, least, greatest, where it shows
    "C": ("-C", True, 0, LIM, ("C", "us")),
    "S": ("-S", False, 1, LIM, ("S", "n")),
    "L": ("-L", False, 1, LIM, ("L", "n")),
    "R": ("-R", False, 16, 1 << 24, ("R", "n")),
    "so": ("--store-offset=", False, 0, LIM, ("S", "off")),
    "lo": ("--load-offset=", False, 0, LIM, ("L", "off")),
    "ps": ("--ps=", False, 2000, 60000, None),
}


def scenario(ctx, seed, o):
    rng = random.Random(seed)
    w = ctx.wire()
    kinds = o.get("kinds", ("fixed", "aseq", "aseq", "gseq", "gseq", "file", "file", "random"))
    places = [rng.choice(o.get("places", ("C", "C", "S", "L", "R", "so", "lo", "ps")))]
    for x in rng.sample(("so", "lo", "ps"), k=rng.choice((0, 0, 1, 2))):
        if x not in places:
            places.insert(0, x)
    for _ in range(rng.choice((0, 0, 1, 3))):
        places.append(rng.choice(("C", "S", "L")))
    if "so" in places and "S" not in places:
        places.append("S")
    if "lo" in places and "L" not in places:
        places.append("L")
    places.sort(key=lambda x: x not in ("so", "lo", "ps"))       # an offset option holds for what follows it
    if "R" in places:
        places = [x for x in places if x != "R"] + ["R"]
    n = rng.choice(o.get("n", (1, 3, 10, 40)))
    argv, ds, files, show = [], [], {}, []
    # an offset source is used by every command after it: keep one user of it
    for x in ("S", "L"):
        if {"S": "so", "L": "lo"}[x] in places:
            while places.count(x) > 1:
                places.remove(x)
    for i, x in enumerate(places):
        opt, time, lo, hi, where = HOW[x]
        s = Source(rng, time, lo, hi, str(i))
        d, text = getattr(s, rng.choice(kinds))()
        files.update(s.files)
        argv.append(opt + text)
        ds.append(d)
        show.append((x, where))
    argv.append("-n%d" % n)
    r = client.ClientRun(ctx.exe("dw_client"), w, ctx.ip(), argv, {"ds": ds, "n": n}, seed, files=files)
    try:
        while r.quiet():
            for c in list(r.conns.values()):
                while c.todo:
                    r.reply(c, c.todo.pop(0))
            if r.sleeping:
                r.tick(min(r.sleeping.values()))
        ev = []
        for m in r.raw:
            ch = w.decode_chain(m)
            if ch is None:
                ev.append({"e": "garbage", "hex": m[:200].hex()})
                continue
            left = list(ch)
            if "R" not in places:
                left = left[:-1]
            v = []
            for x, where in show:
                if where is None:
                    v.append(w.head(m)[1])
                    continue
                if x in ("so", "lo"):
                    c = next((c for c in ch if c["op"] == where[0]), None)
                else:
                    c = next((c for c in left if c["op"] == where[0]), None)
                    if c:
                        left.remove(c)
                v.append(min(c[where[1]], LIM) if c else -1)
            ev.append({"e": "req", "v": v})
        if r.p.poll() is None:
            ev.append({"e": "stuck"})
        else:
            ev.append({"e": "exit", "code": r.p.returncode})
        return {"cfg": r.cfg, "ev": ev, "argv": r.argv, "files": files}
    finally:
        r.cleanup()
