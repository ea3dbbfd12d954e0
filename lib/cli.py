"""Random and enumerated command lines for the real client; the requests they make are judged by DWCli."""
import itertools
import random

import client

DEF_PORT = 7891


def num(rng, v):
    """a byte or plain count, written in one of the accepted ways"""
    forms = [str(v)]
    if v and v % 1000000 == 0:
        forms += ["%dM" % (v // 1000000), "%dm" % (v // 1000000), "%dMB" % (v // 1000000)]
    elif v and v % 1000 == 0:
        forms += ["%dk" % (v // 1000), "%dK" % (v // 1000), "%dkb" % (v // 1000)]
    forms.append("%db" % v)
    return rng.choice(forms)


def usec(rng, v):
    forms = [str(v), "%dus" % v]
    if v % 1000 == 0:
        forms += ["%dms" % (v // 1000), "%dk" % (v // 1000)]
    if v % 1000000 == 0 and v:
        forms += ["%ds" % (v // 1000000)]
    forms.append("%dns" % (v * 1000))
    return rng.choice(forms)


def seq(rng, lo, n, time=False):
    """(values, how it is written): an arithmetic or geometric sequence"""
    f = usec if time else num
    if rng.random() < .6:
        a, st, k = rng.randint(lo, lo + 2000), rng.randint(1, 500), rng.randint(0, 6)
        v = [a + st * i for i in range(k + 1)]
        if rng.random() < .3:                      # the last step is cut off
            mx = v[-1] + rng.randint(0, st - 1) if st > 1 else v[-1]
            if mx > v[-1]:
                v.append(mx)
        if rng.random() < .3:
            v2 = list(reversed(v)) if len(v) == k + 1 else None
            if v2:
                return v2, "aseq:max=%s,min=%s,step=-%d" % (f(rng, v2[0]), f(rng, v2[-1]), st)
        parts = ["min=%s" % f(rng, v[0]), "max=%s" % f(rng, v[-1]), "step=%s" % f(rng, st)]
        rng.shuffle(parts)
        return v, "aseq:" + ",".join(parts)
    a, r, k = rng.randint(max(lo, 1), lo + 40), rng.choice((2, 3, 10)), rng.randint(0, 4)
    v = [a * r ** i for i in range(k + 1)]
    return v, "gseq:min=%s,max=%s" % (f(rng, v[0]), f(rng, v[-1])) + ("" if r == 2 and rng.random() < .5 else ",step=%d" % r)


def target(rng):
    ip = "127.%d.%d.%d" % (rng.randint(0, 9), rng.randint(0, 255), rng.randint(1, 254))
    port = rng.randint(1, 65535)
    pr = rng.choice(("tcp", "tcp", "udp"))
    form = rng.randrange(7)
    if form == 0 and pr == "tcp":
        return {"t": "%s:%d" % (ip, port), "pr": "tcp"}, "%s:%d" % (ip, port)
    if form == 1 and pr == "tcp":
        return {"t": "127.0.0.1:%d" % port, "pr": "tcp"}, ":%d" % port
    if form == 2 and pr == "tcp":
        return {"t": "%s:%d" % (ip, DEF_PORT), "pr": "tcp"}, ip
    if form == 3:
        return {"t": "%s:%d" % (ip, DEF_PORT), "pr": pr}, "%s://%s" % (pr, ip)
    if form == 4:
        return {"t": "%s:%d" % (ip, port), "pr": pr}, "%s:%s:%d" % (pr, ip, port)
    if form == 5:
        return {"t": "127.0.0.1:%d" % port, "pr": pr}, "%s://:%d" % (pr, port)
    return {"t": "%s:%d" % (ip, port), "pr": pr}, "%s://%s:%d" % (pr, ip, port)


LONG = {"C": "comp-time", "S": "store-data", "L": "load-data", "so": "store-offset", "lo": "load-offset", "F": "forward",
        "R": "reply", "s": "skip"}
SHORT = {"C": "C", "S": "S", "L": "L", "F": "F", "R": "R", "s": "s"}


def option(rng, kind, seqs):
    """(abstract option, its argument)"""
    def value(lo, hi, time=False):
        if seqs and rng.random() < .25:
            return seq(rng, lo, 8, time)
        v = rng.choice((lo, rng.randint(lo, hi), rng.randint(lo, hi) // 1000 * 1000 or lo, hi))
        return [v], (usec if time else num)(rng, v)
    if kind == "C":
        v, a = value(0, 3000000, True)
        return {"o": "C", "v": v}, a
    if kind == "S":
        v, a = value(1, 1000000)
        s = rng.choice((1, 1, 0, 2))
        return {"o": "S", "v": v, "sync": 1 if s else 0}, a + {1: "", 0: ",nosync", 2: ",sync"}[s]
    if kind == "L":
        v, a = value(1, 1000000)
        return {"o": "L", "v": v}, a
    if kind in ("so", "lo"):
        v, a = value(0, 100000000)
        return {"o": kind, "v": v}, a
    if kind == "s":
        k = rng.choice((1, 1, 2, 3, 4, 7))
        p = rng.choice((None, None, "1", "1.0", "0.5", "0.3"))
        sure = p in (None, "1", "1.0")
        return {"o": "s", "k": k, "sure": sure}, "%d" % k if p is None else rng.choice(("%d,prob=%s" % (k, p), "prob=%s,%d" % (p, k)))
    if kind == "F":
        n = rng.choice((1, 1, 1, 2, 2, 3, 4))
        ts = [target(rng) for _ in range(n)]
        parts = [t[1] for t in ts]
        to = rt = 0
        if rng.random() < .4:
            to = rng.randint(1, 5000000)
            parts.insert(rng.randint(1, len(parts)), "timeout=%d" % to)
        if rng.random() < .4:
            rt = rng.randint(0, 200)
            parts.insert(rng.randint(1, len(parts)), rng.choice(("retry=%d", "retries=%d")) % rt)
        return {"o": "F", "ts": [t[0] for t in ts], "to": to, "rt": rt}, ",".join(parts)
    if kind == "R":
        v, a = value(16, 100000) if rng.random() < .7 else ([], "")
        nk = rng.choice((0, 0, 1, 2, 3, 5))
        if nk:
            a = ("%s,nack=%d" % (a, nk) if a else "nack=%d" % nk) if not a or rng.random() < .8 else "nack=%d,%s" % (nk, a)
        if not a:
            v, a = [100], "100"
        return {"o": "R", "v": v, "nk": nk}, a
    raise KeyError(kind)


def render(rng, items, script):
    """argv, files: the options as given to the program"""
    argv, files = [], {}
    lines = []
    cut = rng.randint(0, len(items)) if script and rng.random() < .5 else (0 if script else len(items))
    for i, (o, a) in enumerate(items):
        k = o["o"]
        if i < cut:
            if k in SHORT and rng.random() < .6:
                argv += ["-" + SHORT[k] + a] if rng.random() < .5 else ["-" + SHORT[k], a]
            else:
                argv += ["--%s=%s" % (LONG[k], a)] if rng.random() < .6 else ["--" + LONG[k], a]
        else:
            name = SHORT[k] if k in SHORT and rng.random() < .5 else LONG[k]
            dash = rng.choice(("", "-" if len(name) == 1 else "--"))
            lines.append(rng.choice(("%s%s %s", "%s%s\t%s", "%s%s=%s", "  %s%s %s  ")) % (dash, name, a))
            if rng.random() < .2:
                lines.append(rng.choice(("# a comment -C 5", "", "   ")))
    if script:
        sep = rng.choice(("\n", "\n", " "))
        if any("#" in l for l in lines):
            sep = "\n"
        files["cmds"] = sep.join(lines) + rng.choice(("\n", ""))
        if len(lines) > 1 and rng.random() < .3:       # two files, one after the other
            h = len(lines) // 2
            files = {"cmds": "\n".join(lines[:h]) + "\n", "more": "\n".join(lines[h:])}
        for f in files:
            argv += rng.choice((["-f", f], ["--script-filename=" + f], ["-f" + f]))
    return argv, files


def run(ctx, seed, opts, argv, files, n, ps, near=True):
    w = ctx.wire()
    sz = {k: w.sz[k] for k in "CSLFMRP"}
    sz.update(hdr=w.hdr, cmd=w.cmd)
    cfg = {"opts": opts, "ps": ps, "sz": sz, "n": n, "near": near}
    r = client.ClientRun(ctx.exe("dw_client"), w, ctx.ip(), argv, cfg, seed, files=files)
    try:
        while True:
            q = r.quiet()
            if not q:
                break
            for c in list(r.conns.values()):
                while c.todo:
                    r.reply(c, c.todo.pop(0))
            if r.sleeping:
                r.tick(min(r.sleeping.values()))
        ev = []
        for m in r.raw:
            ch = w.decode_chain(m)
            ev.append({"e": "req", "ch": ch, "n": w.head(m)[1]} if ch is not None else {"e": "garbage", "hex": m[:200].hex()})
        if r.p.poll() is None:
            ev.append({"e": "stuck"})
        else:
            ev.append({"e": "exit", "code": r.p.returncode})
        return {"cfg": cfg, "ev": ev, "argv": r.argv, "files": files}
    finally:
        r.cleanup()


def scenario(ctx, seed, o):
    """o: kinds (weights of options), max length, script probability"""
    rng = random.Random(seed)
    kinds = o.get("kinds", {"C": 4, "S": 3, "L": 3, "so": 1, "lo": 1, "F": 4, "R": 4})
    k = rng.choice(o.get("len", (0, 1, 2, 3, 4, 5, 6, 8, 12, 20)))
    names = rng.choices(list(kinds), list(kinds.values()), k=k)
    seqs = "s" not in names and rng.random() < o.get("seqs", .5)
    items = [option(rng, x, seqs) for x in names]
    skips = sum(1 for i in items if i[0]["o"] == "s" and not i[0]["sure"])
    while skips > 5:
        items.pop()
        skips = sum(1 for i in items if i[0]["o"] == "s" and not i[0]["sure"])
    n = rng.choice((1, 2, 3, 8)) if seqs or skips else rng.choice((1, 1, 1, 3))
    argv, files = render(rng, items, rng.random() < o.get("script", .35))
    ps = [1024]
    if rng.random() < .4:
        ps = [rng.choice((20, 64, 200, 512, 3000, 65000))]
        argv.insert(0, "--ps=%d" % ps[0])
    elif seqs and rng.random() < .2:
        ps, a = seq(rng, 20, n)
        argv.insert(0, "--ps=" + a)
    argv += ["-n%d" % n] if n > 1 or rng.random() < .3 else []
    return run(ctx, seed, [i[0] for i in items], argv, files, n, ps)


# ---------------------------------------------------------------------- every short sequence
ALPHA = {
    "C": ({"o": "C", "v": [7]}, "-C7"),
    "S": ({"o": "S", "v": [30], "sync": 1}, "-S30"),
    "L": ({"o": "L", "v": [40]}, "-L40"),
    "F": ({"o": "F", "ts": [{"t": "127.0.0.2:71", "pr": "tcp"}], "to": 0, "rt": 0}, "-F127.0.0.2:71"),
    "M": ({"o": "F", "ts": [{"t": "127.0.0.2:72", "pr": "tcp"}, {"t": "127.0.0.3:73", "pr": "udp"}], "to": 5, "rt": 1},
          "-F127.0.0.2:72,udp://127.0.0.3:73,timeout=5,retry=1"),
    "R": ({"o": "R", "v": [99], "nk": 0}, "-R99"),
    "Q": ({"o": "R", "v": [], "nk": 2}, "-Rnack=2"),
    "1": ({"o": "s", "k": 1, "sure": True}, "-s1"),
    "2": ({"o": "s", "k": 2, "sure": True}, "-s2"),
    "3": ({"o": "s", "k": 3, "sure": True}, "-s3"),
}


def words(alpha, upto):
    for n in range(upto + 1):
        for wd in itertools.product(alpha, repeat=n):
            yield "".join(wd)


def word(ctx, seed, wd):
    """one given sequence of options"""
    return run(ctx, seed, [ALPHA[c][0] for c in wd], [ALPHA[c][1] for c in wd], {}, 1, [1024])


def strict(ctx, seed, wd):
    """the same, with the requests having to mean to a node what they mean on the command line"""
    return run(ctx, seed, [ALPHA[c][0] for c in wd], [ALPHA[c][1] for c in wd], {}, 1, [1024], False)
