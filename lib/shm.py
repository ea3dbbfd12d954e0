"""Python side of the shim: shared header, log records, control channel."""
import mmap
import os
import socket
import struct

HDR = 8192
REC = struct.Struct("<IBBBBiiQqqqQ")
MIN64 = -(1 << 63)
(ACCEPT, CONNECT, CLOSE, RECV, SEND, WRITE, READ, FSYNC, TICK, AFF, SLEEP, CLOCK, BIND, LSEEK, MARK, SHUT, TRUNC,
 ESTAB, OPT, SCHED, INTR) = range(1, 22)
FIELD = {n: i for i, n in enumerate(
    ["magic", "log_off", "vnow", "next_exp", "hold", "disk_credit", "recv_max", "send_max", "send_eagain", "rng", "vcpu",
     "nthr", "disk_waiting", "nclock", "disk_short", "sndbuf", "ncpu", "standin", "fsync_fail", "rt", "outq", "ctltid", "clkstep", "rtseq", "watch", "eintr", "mute"])}
NONE64 = (1 << 64) - 1


class Rec:
    __slots__ = ("type", "tid", "kind", "fd", "err", "vcpu", "a", "b", "rv", "seq", "data")


class Shm:
    def __init__(self, path, size):
        self.path = path
        with open(path, "wb") as f:
            f.truncate(size)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), size)
        self.pos = 0
        self.size = size
        self.ctl, self.child = socket.socketpair()
        self.set("disk_credit", -1)
        self.set("next_exp", -1)

    def env(self):
        return {"DWSHIM_SHM": self.path, "DWSHIM_CTL": str(self.child.fileno())}

    def get(self, name, signed=False):
        return struct.unpack_from("<q" if signed else "<Q", self.m, 8 * FIELD[name])[0]

    def set(self, name, v):
        struct.pack_into("<q", self.m, 8 * FIELD[name], v)

    def threads(self):
        """(state, waits) of every thread that runs an event loop"""
        out = []
        for i in range(64):
            st, w = struct.unpack_from("<QQ", self.m, 512 + 16 * i)
            if st:
                out.append((i, st, w))
        return out

    def command(self, c, arg=0):
        self.ctl.sendall(c.encode() + b"\0" * 7 + struct.pack("<Q", arg))
        return self.ctl.recv(1) == b"k"

    def records(self):
        """complete records appended since the last call"""
        out = []
        while self.pos < self.get("log_off"):
            o = HDR + self.pos
            ln, ty, tid, kind, _, fd, err, vcpu, a, b, rv, seq = REC.unpack_from(self.m, o)
            if rv == MIN64:
                break
            # the length may have shrunk while the call was in progress
            ln, ty, tid, kind, _, fd, err, vcpu, a, b, rv, seq = REC.unpack_from(self.m, o)
            r = Rec()
            r.type, r.tid, r.kind, r.fd, r.err, r.vcpu, r.a, r.b, r.rv, r.seq = ty, tid, kind, fd, err, vcpu, a, b, rv, seq
            r.data = self.m[o + REC.size:o + ln] if ln > REC.size else b""
            out.append(r)
            self.pos += ln
        if self.pos > self.size // 4 and self.pos == self.get("log_off"):
            try:
                if self.command("W", self.pos):
                    self.pos = 0
            except OSError:
                pass             # the program has exited
        return out

    def close(self):
        for c in (self.m, self.f, self.ctl, self.child):
            try:
                c.close()
            except OSError:
                pass


def addr(v):
    if v < 0:
        return "?"
    return "%d.%d.%d.%d:%d" % ((v >> 40) & 255, (v >> 32) & 255, (v >> 24) & 255, (v >> 16) & 255, v & 65535)
