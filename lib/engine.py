"""Runs scenario families against the real programs and has TLC judge every recorded execution."""
import collections
import hashlib
import itertools
import json
import os
import random
import sys
import threading
import time

import build
import pool
import scratch
import tlc

VERIF = tlc.VERIF


class Family:
    """a kind of environment: fn(ctx, seed, opts) returns a trace that `module` has to explain"""

    def __init__(self, name, fn, opts, module="DWNodeTrace", weight=1, judge=None, repeat=10):
        self.name, self.fn, self.opts, self.module, self.weight = name, fn, opts, module, weight
        self.judge = judge or (lambda tr, pos: True)
        self.repeat = repeat


def derive(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


def digest(tr):
    return hashlib.sha256(json.dumps(tr["ev"], sort_keys=True).encode()).digest()[:8]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.model = []            # exhaustive model-checking runs
        self.traces = 0
        self.kinds = collections.Counter()
        self.fam = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.least = 12            # events of an execution worth showing
        self.violations = []
        self.suspects = []
        self.unrepeated = 0
        self.unjudged = 0
        self.nverdict = 0
        self.extra = {}
        self.assumptions = []
        self.b = None
        self.pool = None

    # ------------------------------------------------------------------ set-up
    def programs(self, *names):
        scratch.sweep()
        self.b = build.Build()
        for n in names:
            self.b.program(n)
        return self.b

    def workers(self):
        if self.pool is None:
            self.pool = pool.Pool(self.b)
        return self.pool

    def close(self):
        if self.pool:
            self.pool.close()
        if self.b:
            self.b.close()

    # ------------------------------------------------------------------ model checking
    def model_check(self, module, cfg, note, **kw):
        ok, st, tr, out = tlc.model_check(module, cfg, **kw)
        self.states += st
        self.transitions += tr
        self.model.append({"module": module, "cfg": cfg, "distinct_states": st, "transitions": tr, "what": note})
        if not ok:
            # the specification is ours: it failing is an error of the check, not of the program
            raise tlc.TLCError("the specification violates its own properties\n" + out[-4000:])

    # ------------------------------------------------------------------ conformance
    def explore(self, families, budget, chunk=14.0):
        """run executions for about `budget` seconds, judging them chunk by chunk"""
        rng = random.Random(derive(self.seed, self.pid, "mix"))
        end = time.time() + budget
        n = 0
        pend = None
        ran = 0

        def jobs():
            nonlocal n
            while True:
                # every family comes up in every cycle, the rest is weighted
                order = list(range(len(families)))
                rng.shuffle(order)
                order += rng.choices(range(len(families)), [f.weight for f in families], k=3 * len(families))
                for k in order:
                    n += 1
                    yield families[k].fn, (derive(self.seed, self.pid, n), families[k].opts), k

        gen = jobs()
        while True:
            left = end - time.time()
            if ran and (left < 1 or self.violations):
                break
            tags = {}

            def feed():
                for fn, args, k in gen:
                    tags[args[0]] = k
                    yield fn, args
            bad = 0

            def stop(r):
                nonlocal bad
                if r and isinstance(r, dict) and r["ev"] and r["ev"][-1]["e"] in ("stuck", "died"):
                    bad += 1
                return bad >= 6
            c = min(chunk if ran else chunk / 2, max(left, 3))
            res, errors = self.workers().run(feed(), c, stop)
            ran += len(res)
            for e in errors:
                print("scenario error (ignored, %d so far): %s" % (len(errors), e.strip().split("\n")[-1]), file=sys.stderr)
            batch = [(families[tags[job[1][0]]], job[1][0], tr) for job, tr in res if tr]
            if pend:
                pend.join()
                if self.error:
                    raise self.error
            self.error = None
            pend = threading.Thread(target=self._judge, args=(batch,))
            pend.start()
            if bad >= 6:
                break
        if pend:
            pend.join()
            if self.error:
                raise self.error
        self._confirm()

    def enumerate(self, f, items, budget):
        """run every one of `items` (as far as the time goes) and judge them"""
        n = 0
        items = iter(items)
        end = time.time() + budget
        while not self.violations and time.time() < end:
            part = list(itertools.islice(items, 4000))
            if not part:
                break
            todo = [(f.fn, (derive(self.seed, self.pid, f.name, n + i), x)) for i, x in enumerate(part)]
            res, errors = self.workers().run(todo, max(1, end - time.time()))
            for e in errors:
                print("scenario error (ignored): " + e.strip().split("\n")[-1], file=sys.stderr)
            n += len(res)
            self.error = None
            self._judge([(Family(f.name, f.fn, job[1][1], f.module, judge=f.judge, repeat=f.repeat), job[1][0], tr)
                         for job, tr in res if tr])
            if self.error:
                raise self.error
            if len(self.suspects) > 20:
                break
        self._confirm()
        self.suspects = []
        self.extra.setdefault("enumerated", {})[f.name] = n

    def known(self, f):
        """inputs that are known to break the property: said, but not counted"""
        with open(os.path.join(VERIF, "known-findings.txt")) as h:
            lines = [l.split(None, 3) for l in h if l.startswith("known: property=%s " % self.pid)]
        for _, _, inp, what in lines:
            res, _ = self.workers().run([(f.fn, (derive(self.seed, self.pid, inp), inp.split("=", 1)[1]))], 60)
            t = [r for _, r in res if r]
            v, st, tr = tlc.validate(t, f.module)
            self.states += st
            self.transitions += tr
            if any(ok is False for ok, _ in v):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what.strip()))
                self.extra.setdefault("known_findings_seen", []).append(inp)

    def generated(self, gen, name, tier, budget):
        """replay the environments that TLC generates from the specification"""
        if self.violations:
            return
        l, st, tr = gen.SETS[name].scripts(tier)
        self.states += st
        self.transitions += tr
        random.Random(derive(self.seed, self.pid, name)).shuffle(l)
        self.enumerate(Family("gen-" + name, gen.replay, None, repeat=6), [(name, x) for x in l], budget)
        self.extra.setdefault("generated", {})[name] = len(l)

    def _validate(self, traces, module):
        v, st, tr = tlc.validate(traces, module)
        # explained only by another choice between like requests?
        again = [i for i, (ok, _) in enumerate(v) if ok is False and traces[i]["cfg"].get("fifo")]
        if again:
            u = [dict(traces[i], cfg=dict(traces[i]["cfg"], fifo=False)) for i in again[:40]]
            w, a, b = tlc.validate(u, module, jobs=8, timeout=60)
            st, tr = st + a, tr + b
            for i, x in zip(again, w):
                if x[0]:
                    v[i] = x
        return v, st, tr

    def _judge(self, batch):
        try:
            for mod in {f.module for f, _, _ in batch}:
                part = [x for x in batch if x[0].module == mod]
                v, st, tr = self._validate([t for _, _, t in part], mod)
                self.states += st
                self.transitions += tr
                for (f, seed, t), (ok, pos) in zip(part, v):
                    if ok is None:
                        self.nverdict += 1
                        continue
                    self.traces += 1
                    self.fam[f.name] += 1
                    self.distinct.add(digest(t))
                    for e in t["ev"]:
                        self.kinds[e["e"]] += 1
                    if len(self.samples) < 3 and ok and len(t["ev"]) > self.least:
                        self.samples.append({"family": f.name, "seed": seed, "events": t["ev"][:12], "of": len(t["ev"])})
                    if not ok:
                        if f.judge(t, pos):
                            self.suspects.append((f, seed, t, pos))
                        else:
                            self.unjudged += 1
        except BaseException as e:       # handed over to the main thread
            self.error = e

    def _confirm(self):
        """a rejection counts when it happens again"""
        tried = 0
        for f, seed, t, pos in self.suspects:
            if self.violations or tried >= 6:
                break
            tried += 1
            res, _ = self.workers().run([(f.fn, (seed, f.opts))] * f.repeat, 120,
                                        lambda r: bool(r) and r["ev"][-1:] and r["ev"][-1]["e"] in ("stuck", "died"))
            again = [r for _, r in res if r]
            v, st, tr = self._validate(again, f.module)
            hits = [(r, p) for r, (ok, p) in zip(again, v) if ok is False and f.judge(r, p)]
            if hits and self._strict(f, hits[0][0]):
                self._violation(f, seed, hits[0][0], hits[0][1], len(hits), len(again))
            else:
                self.unrepeated += 1
        if not self.violations:
            # rare ones: the same kind of contradiction in several different executions
            by = collections.defaultdict(list)
            for s in self.suspects:
                ev = s[2]["ev"]
                e = ev[s[3]]["e"] if s[3] < len(ev) else "end"
                if e != "stuck":
                    by[e].append(s)
            for e, l in by.items():
                if len(l) >= 4 and self._strict(l[0][0], l[0][2]):
                    f, seed, t, pos = l[0]
                    self._violation(f, seed, t, pos, len(l), self.traces)

    def _strict(self, f, t):
        """still no explanation when timers may fire a little late?"""
        if "slack" not in t["cfg"]:
            return True
        u = dict(t, cfg=dict(t["cfg"], slack=2000))
        v, _, _ = tlc.validate([u], f.module, timeout=120)
        return v[0][0] is not True

    def _violation(self, f, seed, t, pos, hits, of):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, f.name, seed))
        ev = t["ev"][pos] if pos < len(t["ev"]) else None
        try:
            state = tlc.why(t, pos, f.module)
        except Exception as e:
            state = str(e)
        with open(p, "w") as h:
            json.dump({"property": self.pid, "family": f.name, "seed": seed, "opts": f.opts, "rejected_at": pos,
                       "unexplained_event": ev, "repeated": [hits, of], "spec_state_before": state.split("\n"), "trace": t}, h, indent=1)
        self.violations.append({"replay": p, "event": ev, "what": "%s seed %d: event %d cannot be explained: %s"
                                % (f.name, seed, pos, json.dumps(ev)[:300])})

    def violation(self, name, what, data):
        """a violation found outside of trace validation"""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, name))
        with open(p, "w") as h:
            json.dump({"property": self.pid, "what": what, "data": data}, h, indent=1)
        self.violations.append({"replay": p, "what": what})

    # ------------------------------------------------------------------ result
    def report(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "distinct_traces": len(self.distinct), "executions_per_family": dict(self.fam),
               "events_explained": dict(self.kinds), "rejections_not_repeated": self.unrepeated,
               "rejections_about_other_properties": self.unjudged, "no_verdict_in_time": self.nverdict, "exhaustive_models": self.model}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for v in self.violations:
            print(v["what"])
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        print("%s %s: %d executions judged, %d states, %.0f s, %s" % (
            self.pid, self.tier, self.traces, self.states, time.time() - self.t0,
            "%d violations" % len(self.violations) if self.violations else "held"))
        return 1 if self.violations else 0
