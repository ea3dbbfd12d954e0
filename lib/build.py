"""Builds what a check runs from /repo's current sources, in a scratch directory."""
import glob
import json
import os
import shutil
import subprocess

import scratch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DW_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CFLAGS = ["-O2", "-g", "-w", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I" + SRC]
LIBS = ["-lm", "-lpthread", "-ldl"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def sources(without):
    """every source of the repository that is neither a test nor one of `without`"""
    return [f for f in sorted(glob.glob(os.path.join(SRC, "*.c")))
            if not os.path.basename(f).startswith("test_") and os.path.basename(f) not in without]


class Build:
    """scratch build directory; compiles lazily and in parallel"""

    def __init__(self):
        self.dir = scratch.make("build")
        self.objs = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _compile_all(self, files, tag, flags):
        procs = []
        out = []
        for f in files:
            key = (f, tag)
            if key not in self.objs:
                o = os.path.join(self.dir, "%s.%s.o" % (os.path.basename(f), tag))
                procs.append((f, subprocess.Popen(["gcc", "-c", f, "-o", o] + flags, stdout=subprocess.PIPE,
                                                  stderr=subprocess.STDOUT, text=True)))
                self.objs[key] = o
            out.append(self.objs[key])
        for f, p in procs:
            txt = p.communicate()[0]
            if p.returncode != 0:
                raise BuildError("%s\n%s" % (f, txt[-4000:]))
        return out

    def program(self, name, others=()):
        """dw_node or dw_client with the shim linked in"""
        exe = os.path.join(self.dir, name)
        if not os.path.exists(exe):
            mains = {"dw_node", "dw_client"} - {name}
            srcs = sources({m + ".c" for m in mains})
            objs = self._compile_all(srcs + [os.path.join(VERIF, "harness", "shim.c")], "o2", CFLAGS)
            run(["gcc", "-rdynamic", "-o", exe] + objs + LIBS)
        return exe

    def unit(self, name, harness):
        """a harness from /verif/harness linked with the repository's library sources"""
        exe = os.path.join(self.dir, name)
        if not os.path.exists(exe):
            srcs = sources({"dw_node.c", "dw_client.c"})
            objs = self._compile_all(srcs + [os.path.join(VERIF, "harness", harness)], "o2", CFLAGS)
            run(["gcc", "-o", exe] + objs + LIBS)
        return exe

    def layout(self):
        exe = os.path.join(self.dir, "layout")
        try:
            if not os.path.exists(exe):
                run(["gcc"] + CFLAGS + [os.path.join(VERIF, "harness", "layout.c"), "-o", exe])
            return json.loads(run([exe]))
        except (BuildError, ValueError):
            # the wire format is a protocol: renamed fields do not change it
            with open(os.path.join(VERIF, "harness", "layout.json")) as f:
                return json.load(f)
