"""Wire format of distwalk messages (layout read from message.h at build time)."""
import socket
import struct

FMT = {1: "B", 2: "H", 4: "I", 8: "Q"}
BIG = (1 << 31) - 1


class Wire:
    def __init__(self, lay):
        self.L = lay
        self.hdr = lay["hdr"]
        self.cmd = lay["cmd"]
        self.op = lay["op"]
        self.rop = {v: k for k, v in lay["op"].items()}
        self.sz = dict(lay["sz"])
        self.sz["M"] = self.sz["F"]
        self.sz["P"] = self.sz["E"] = 0

    def _put(self, buf, base, field, val):
        off, n = self.L[field]
        struct.pack_into("<" + FMT[n], buf, base + off, val & ((1 << (8 * n)) - 1))

    def _get(self, buf, base, field):
        off, n = self.L[field]
        return struct.unpack_from("<" + FMT[n], buf, base + off)[0]

    def chain_len(self, ch):
        return sum(self.cmd + self.sz[c["op"]] for c in ch) + self.cmd

    def encode_chain(self, ch):
        out = bytearray()
        for c in list(ch) + [{"op": "E"}]:
            b = bytearray(self.cmd + self.sz[c["op"]])
            struct.pack_into("<I", b, 0, self.op[c["op"]])
            o = self.cmd
            k = c["op"]
            if k == "C":
                self._put(b, o, "comp_opts_t.comp_time_us", c["us"])
            elif k == "S":
                self._put(b, o, "store_opts_t.offset", c["off"])
                self._put(b, o, "store_opts_t.store_nbytes", c["n"])
                self._put(b, o, "store_opts_t.wait_sync", c["sync"])
            elif k == "L":
                self._put(b, o, "load_opts_t.offset", c["off"])
                self._put(b, o, "load_opts_t.load_nbytes", c["n"])
            elif k in "FM":
                ip, port = c["t"].split(":")
                self._put(b, o, "fwd_opts_t.pkt_size", c["ps"])
                off, _ = self.L["fwd_opts_t.fwd_host"]
                b[o + off:o + off + 4] = socket.inet_aton(ip)
                self._put(b, o, "fwd_opts_t.fwd_port", socket.htons(int(port)))
                self._put(b, o, "fwd_opts_t.timeout", c["to"])
                self._put(b, o, "fwd_opts_t.retries", c["rt"])
                self._put(b, o, "fwd_opts_t.on_fail_skip", c["sk"])
                self._put(b, o, "fwd_opts_t.proto", self.L[c["pr"]])
            elif k == "R":
                self._put(b, o, "reply_opts_t.resp_size", c["n"])
                self._put(b, o, "reply_opts_t.n_ack", c["ack"])
            out += b
        return bytes(out)

    def message(self, rid, ch, size=None, status=0, fill=0):
        body = self.encode_chain(ch)
        n = self.hdr + len(body)
        if size is None:
            size = n
        assert size >= n
        b = bytearray([fill]) * size
        b[0:self.hdr] = bytes(self.hdr)
        self._put(b, 0, "message_t.req_id", rid)
        self._put(b, 0, "message_t.req_size", size)
        self._put(b, 0, "message_t.status", status)
        b[self.hdr:n] = body
        return bytes(b)

    def reply(self, rid, size=None, status=0):
        n = self.hdr + self.cmd
        size = max(size or n, n)
        b = bytearray(size)
        self._put(b, 0, "message_t.req_id", rid)
        self._put(b, 0, "message_t.req_size", size)
        self._put(b, 0, "message_t.status", status)
        struct.pack_into("<I", b, self.hdr, self.op["E"])
        return bytes(b)

    # -- decoding -----------------------------------------------------------
    def head(self, buf, at=0):
        """(id, size, status) of the message starting at `at`"""
        st = self._get(buf, at, "message_t.status")
        n = self.L["message_t.status"][1]
        if st >= 1 << (8 * n - 1):
            st -= 1 << (8 * n)
        return self._get(buf, at, "message_t.req_id"), self._get(buf, at, "message_t.req_size"), st

    def decode_chain(self, m):
        """list of commands, or None if the bytes are not a chain ended by EOM"""
        o = self.hdr
        ch = []
        while True:
            if o + self.cmd > len(m):
                return None
            k = self.rop.get(struct.unpack_from("<I", m, o)[0])
            if k is None:
                return None
            o += self.cmd
            if k == "E":
                return ch
            if o + self.sz[k] > len(m):
                return None
            if k == "C":
                ch.append({"op": "C", "us": self._get(m, o, "comp_opts_t.comp_time_us")})
            elif k == "S":
                ch.append({"op": "S", "n": self._get(m, o, "store_opts_t.store_nbytes"),
                           "off": self.s64(self._get(m, o, "store_opts_t.offset")),
                           "sync": self._get(m, o, "store_opts_t.wait_sync")})
            elif k == "L":
                ch.append({"op": "L", "n": self._get(m, o, "load_opts_t.load_nbytes"),
                           "off": self.s64(self._get(m, o, "load_opts_t.offset"))})
            elif k in "FM":
                off, _ = self.L["fwd_opts_t.fwd_host"]
                pr = self._get(m, o, "fwd_opts_t.proto")
                ch.append({"op": k, "t": "%s:%d" % (socket.inet_ntoa(bytes(m[o + off:o + off + 4])),
                                                     socket.ntohs(self._get(m, o, "fwd_opts_t.fwd_port"))),
                           "ps": self._get(m, o, "fwd_opts_t.pkt_size"), "to": self._get(m, o, "fwd_opts_t.timeout"),
                           "rt": self._get(m, o, "fwd_opts_t.retries"), "sk": self._get(m, o, "fwd_opts_t.on_fail_skip"),
                           "pr": "tcp" if pr == self.L["tcp"] else "udp" if pr == self.L["udp"] else "?%d" % pr})
            elif k == "R":
                ch.append({"op": "R", "n": self._get(m, o, "reply_opts_t.resp_size"),
                           "ack": self._get(m, o, "reply_opts_t.n_ack")})
            else:
                ch.append({"op": k})
            o += self.sz[k]

    @staticmethod
    def s64(v):
        return v - (1 << 64) if v >= 1 << 63 else v
