"""Operation sequences for the repository's queues."""
import itertools
import json
import random
import subprocess


def drive(ctx, cfg, lines):
    try:
        p = subprocess.run([ctx.exe("unit")], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=20, errors="replace")
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, code = (e.stdout or b"").decode(errors="replace"), None
    ev = []
    for l in out.split("\n"):
        if l:
            try:
                ev.append(json.loads(l))
            except ValueError:
                break
    if code is None:
        ev.append({"e": "stuck"})
    elif code != 0:
        ev.append({"e": "died", "code": code})
    return {"cfg": cfg, "ev": ev, "ops": lines if len(lines) < 300 else len(lines)}


# ---------------------------------------------------------------------- the double-ended queue
def ops(ctx, seed, item):
    """a given sequence of queue operations: e h t d"""
    cap, word = item
    return drive(ctx, {"cap": cap}, ["Q %d" % cap] + ["e %d %d" % (i * 7 % 11, i) if c == "e" else c for i, c in enumerate(word)])


def debruijn(alpha, n):
    """every word of length n over alpha appears in it"""
    k = len(alpha)
    a = [0] * k * n
    s = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                s.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return "".join(alpha[i] for i in s) + "".join(alpha[i] for i in s[:n - 1])


def windows(caps, n, m):
    """all words of length n from an empty queue; all windows of length m in a row"""
    for cap in caps:
        for w in itertools.product("ehtd", repeat=n):
            yield cap, "".join(w) + "h" * (cap + 1)
        yield cap, debruijn("eht", m)
        yield cap, debruijn("ehtd", m - 1)


def queue(ctx, seed, o):
    rng = random.Random(seed)
    cap = rng.choice(o.get("caps", (1, 2, 3, 4, 5, 8, 13, 50)))
    ops = []
    up = rng.choice((.2, .5, .8))
    for i in range(o.get("steps", 400)):
        if rng.random() < .03:
            up = rng.choice((.05, .2, .5, .8, 1))
        if rng.random() < up:
            ops.append("e %d %d" % (rng.choice((0, 1, -5, 2 ** 31 - 1, -2 ** 31, rng.randint(-1000, 1000))), rng.randint(0, 10 ** 9)))
        else:
            ops.append(rng.choice("hhhhtttt" + ("d" if rng.random() < .1 else "h")))
    return drive(ctx, {"cap": cap}, ["Q %d" % cap] + ops + ["h"] * (cap + 1))


# ---------------------------------------------------------------------- the priority queue
KEYS = {"few": lambda r: r.randint(0, 2), "some": lambda r: r.randint(-4, 12), "any": lambda r: r.randint(-2 ** 31, 2 ** 31 - 1),
        "time": lambda r: r.choice((10, 20, 50, 1000)) * 1000 + r.randint(0, 3)}


def pqueue(ctx, seed, o):
    rng = random.Random(seed)
    cap = rng.choice(o.get("caps", (1, 2, 3, 5, 7, 8, 12, 12, 15, 40, 100)))
    key = KEYS[rng.choice(o.get("keys", ("few", "some", "any", "time")))]
    ops, n, d = [], 0, 0
    up = rng.choice((.3, .5, .7))
    pop = rng.choice((.1, .5, .9))
    for i in range(o.get("steps", 300)):
        if rng.random() < .03:
            up = rng.choice((.1, .3, .5, .7, 1))
        if n < cap and (not n or rng.random() < up):
            d += 1
            ops.append("i %d %d" % (key(rng), d))
            n += 1
        else:
            ops.append("o" if rng.random() < pop else "r %d" % rng.randrange(n))
            n -= 1
    return drive(ctx, {"cap": cap}, ["P %d" % cap] + ops + ["o"] * n)


def heap(ctx, seed, item):
    """insertions with the given keys, then removals of the given positions (-1: pop)"""
    keys, rm = item
    return drive(ctx, {"cap": len(keys)}, ["P %d" % len(keys)] + ["i %d %d" % (k, i) for i, k in enumerate(keys)]
                 + ["o" if j < 0 else "r %d" % j for j in rm])


def heaps(n):
    """all key orders (with ties) and all removal orders of up to n entries"""
    for k in range(1, n + 1):
        for keys in itertools.product(range(min(k, 3)), repeat=k):
            for rm in itertools.product(*[range(-1, k - i) for i in range(k)]):
                yield keys, rm


def shapes(n):
    """all orders of n different keys, each with one removal in every position and then everything popped"""
    for keys in itertools.permutations(range(n)):
        for j in range(n):
            yield keys, (j,) + (-1,) * (n - 1)
