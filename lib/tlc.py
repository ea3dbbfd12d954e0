"""Runs TLC: trace validation on partitions, model checking, state-graph dumps."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import scratch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
GEN = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
INIT = re.compile(r"^Finished computing initial states: (\d+) ", re.M)
VERDICT = re.compile(r'<<"VERDICT", (\d+), "(\w+)", (\d+)>>')


class TLCError(Exception):
    pass


class TLCTimeout(TLCError):
    pass


def env(mem, **kw):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:ParallelGCThreads=2 -XX:CICompilerCount=2" % mem
    e.update(kw)
    return e


def start(module, cfg=None, workers=1, mem="1500m", args=(), **kw):
    d = scratch.make("tlc")
    cmd = ["tlc", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE"] + list(args)
    if cfg:
        cmd += ["-config", cfg]
    p = subprocess.Popen(cmd + [module], cwd=SPEC, env=env(mem, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True)
    p.scratch = d
    return p


def finish(p, timeout=800):
    try:
        out = p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        out = p.communicate()[0]
        raise TLCTimeout("TLC did not finish in time\n" + out[-2000:])
    finally:
        shutil.rmtree(p.scratch, ignore_errors=True)
    return out


def counts(out):
    m = GEN.findall(out)
    i = INIT.findall(out)
    return (int(m[-1][1]), int(m[-1][0]) - (int(i[-1]) if i else 0)) if m else (0, 0)


def validate(traces, module="DWNodeTrace", jobs=6, mem="1500m", timeout=240, depth=0):
    """[(accepted (None: no verdict in time), explained events)], distinct states, transitions"""
    if not traces:
        return [], 0, 0
    d = scratch.make("tr")
    try:
        jobs = max(1, min(jobs, (len(traces) + 19) // 20))
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ev"]))
        parts = [order[j::jobs] for j in range(jobs)]
        procs = []
        for j, part in enumerate(parts):
            f = os.path.join(d, "t%d.ndjson" % j)
            with open(f, "w") as h:
                for i in part:
                    h.write(json.dumps(traces[i]) + "\n")
            procs.append(start(module, mem=mem, DW_TRACES=f))
        res = [None] * len(traces)
        end = time.time() + timeout
        st = tr = 0
        for part, p in zip(parts, procs):
            try:
                out = finish(p, max(1, end - time.time()))
            except TLCTimeout:
                for i in part:
                    res[i] = (None, 0)       # no verdict
                continue
            got = VERDICT.findall(out)
            if len(got) != len(part):
                if len(part) == 1:
                    # the recording makes no sense to the specification: nothing it describes looks like that
                    print("TLC: " + " ".join(re.findall(r"^Error: .*|^Overflow.*|^Attempted.*", out, re.M)[:2])[:300], file=sys.stderr)
                    res[part[0]] = (False, 0)
                    continue
                if depth > 12 or "Starting..." not in out:
                    raise TLCError(out[-6000:])
                h = (len(part) + 1) // 2
                for sub in (part[:h], part[h:]):
                    r, a, b = validate([traces[i] for i in sub], module, 1, mem, max(30, end - time.time()), depth + 1)
                    for i, x in zip(sub, r):
                        res[i] = x
                    st += a
                    tr += b
                continue
            for k, v, pos in got:
                res[part[int(k) - 1]] = (v == "accepted", int(pos) - 1)
            a, b = counts(out)
            st += a
            tr += b
        return res, st, tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg, workers=4, mem="3g", timeout=800, args=(), **kw):
    """(ok, distinct states, transitions, output)"""
    p = start(module, cfg, workers, mem, args, **kw)
    out = finish(p, timeout)
    ok = "Model checking completed. No error has been found." in out
    if not ok and "is violated" not in out and "Deadlock reached" not in out and "Temporal properties were violated" not in out:
        raise TLCError(out[-6000:])
    a, b = counts(out)
    return ok, a, b, out


def why(trace, pos, module="DWNodeTrace", cfg=None):
    """the states of the specification in front of the first event it cannot explain"""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", prefix="dwv-why-") as h:
        h.write(json.dumps(trace) + "\n")
        h.flush()
        out = finish(start(module, cfg or module.replace("Trace", "Why") + ".cfg", DW_TRACES=h.name, DW_STOP=str(pos + 1)), 120)
    i = out.rfind("State ")
    return out[i:].split("\n\n")[0] if i >= 0 else out[-3000:]
