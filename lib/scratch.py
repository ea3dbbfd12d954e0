"""Scratch directories; those of a run that was killed are removed by the next one."""
import os
import shutil
import signal
import tempfile

OWNER = os.getpid()


def fast():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return d
    return None


def make(kind, quick=False):
    return tempfile.mkdtemp(prefix="dwv-%d-%s-" % (OWNER, kind), dir=fast() if quick else None)


def sweep():
    for root in {fast(), tempfile.gettempdir()}:
        for n in os.listdir(root) if root else ():
            p = n.split("-")
            if p[0] == "dwv" and len(p) > 2 and p[1].isdigit() and not os.path.exists("/proc/" + p[1]):
                shutil.rmtree(os.path.join(root, n), ignore_errors=True)


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def drop(d):
    shutil.rmtree(d, ignore_errors=True)
