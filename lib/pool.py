"""Runs scenarios in parallel processes; every execution gets loopback addresses of its own."""
import multiprocessing as mp
import os
import signal
import time
import traceback

import scratch
import wire


class Ctx:
    """what a scenario needs from the outside"""

    def __init__(self, b, lay, worker, octet):
        self.b, self.lay = b, lay
        self.worker, self.octet = worker, octet
        self.k = 0
        self._w = None

    def exe(self, name):
        return os.path.join(self.b, name)

    def wire(self):
        if self._w is None:
            self._w = wire.Wire(self.lay)
        return self._w

    def ip(self):
        self.k += 1
        return "127.%d.%d.1" % (self.octet, 1 + (self.worker * 25 + self.k % 25))


LIMIT_S = 150


def _late(*_):
    raise RuntimeError("the scenario took more than %d s" % LIMIT_S)


def _work(b, lay, worker, octet, q, out):
    scratch.die_with_parent()
    ctx = Ctx(b, lay, worker, octet)
    while True:
        job = q.get()
        if job is None:
            return
        i, fn, args = job
        t0 = time.time()
        signal.signal(signal.SIGALRM, _late)
        signal.alarm(LIMIT_S)
        try:
            r = fn(ctx, *args)
            signal.alarm(0)
            out.put((i, r, None, time.time() - t0))
        except BaseException:
            signal.alarm(0)
            out.put((i, None, traceback.format_exc(), time.time() - t0))


class Pool:
    def __init__(self, bld, workers=8):
        self.lay = bld.layout()
        self.b = bld.dir
        self.q, self.out = mp.Queue(), mp.Queue()
        octet = 10 + os.getpid() % 200
        self.ps = [mp.Process(target=_work, args=(self.b, self.lay, w, octet, self.q, self.out), daemon=True)
                   for w in range(workers)]
        for p in self.ps:
            p.start()

    def run(self, jobs, budget=None, stop=None):
        """jobs: iterable of (fn, args); hands out no more after `budget` seconds or once stop(result) says so.
        -> [(job, result)], errors"""
        t0 = time.time()
        it = iter(jobs)
        live = {}
        res = []
        n = 0
        errors = []
        over = False

        def feed():
            nonlocal n
            if over:
                return False
            if budget is not None and time.time() - t0 > budget:
                return False
            try:
                fn, args = next(it)
            except StopIteration:
                return False
            live[n] = (fn, args)
            self.q.put((n, fn, args))
            n += 1
            return True
        for _ in range(len(self.ps) * 2):
            if not feed():
                break
        while live:
            i, r, err, dt = self.out.get(timeout=240)
            job = live.pop(i)
            if err:
                errors.append(err)
                if len(errors) > 20 + len(res) // 10:
                    raise RuntimeError("scenarios fail to run:\n" + err)
            else:
                res.append((i, job, r))
                if stop is not None and stop(r):
                    over = True
            feed()
        res.sort(key=lambda x: x[0])
        return [(j, r) for _, j, r in res], errors

    def close(self):
        for _ in self.ps:
            self.q.put(None)
        for p in self.ps:
            p.join(timeout=5)
            if p.is_alive():
                p.kill()
