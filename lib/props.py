"""Which environments decide which property."""
import addr
import aff
import cli
import client
import dist
from engine import Family
import gen
import kernel
from scen import scenario
import system
import units


def fam(name, weight=1, judge=None, repeat=10, **opts):
    return Family(name, scenario, opts, weight=weight, judge=judge, repeat=repeat)


def cfam(name, weight=1, judge=None, **opts):
    return Family(name, client.scenario, opts, "DWClientTrace", weight, judge)


def ofam(name, weight=1, **opts):
    return Family(name, cli.scenario, opts, "DWCliTrace", weight, repeat=4)


FAULTS = dict(tick=6, close=1, reset=1, peerdrop=1, peerdown=1, peerup=1)
MODES = dict(nt=(2, 3, 4), accept=("child", "parent", "shared"))
TO = (0, 20000, 50000)
INTR = (10, 40, 80)


def at(*kinds):
    """rejections that are about this property: those at one of these events"""
    return lambda tr, pos: pos < len(tr["ev"]) and tr["ev"][pos]["e"] in kinds


NODE = {
    "C01": [
        fam("mixed"),
        fam("pipelined", steps=10, clients=2, chain=2, act=dict(request=12)),
        fam("storage", ops=dict(S=5, L=4, F=1), steps=25, act=dict(gate=3)),
        fam("many", clients=12, steps=40, chain=3, act=dict(connect=8)),
        fam("timeouts", timeouts=TO, dead=1, steps=30, act=dict(tick=6)),
        fam("threads", steps=30, clients=6, node=MODES),
        fam("faults", timeouts=TO, dead=1, steps=30, act=FAULTS),
    ],
    "C02": [
        fam("cut", recv_max=(1, 2, 7, 40), send_max=(1, 3, 50), eagain=(0, 30, 60), pieces=0.6),
        fam("coalesced", batch=0.8, pieces=0.5, act=dict(request=14), chain=2),
        fam("slow", big=0.3, rcvbuf=4096, steps=20, act=dict(stall=3), send_max=(0, 0, 1000), recv_max=(0, 0, 3000),
            eagain=(0, 30), node=dict(sndbuf=(0, 8192))),
        fam("large", big=0.6, steps=12, clients=2, chain=1, reqsize=(0, 30000, 66000), acksize=(0, 5000, 70000),
            send_max=(0, 0, 9000), recv_max=(0, 0, 3000), act=dict(stall=2), node=dict(sndbuf=(0, 16384))),
        fam("mixed"),
    ],
    "C03": [
        fam("mixed", chain=8, steps=20),
        fam("gated", ops=dict(S=6, L=4), steps=30, act=dict(gate=3), us=(0, 10, 130, 999)),
        fam("long", chain=25, ops=dict(C=5, S=3, L=3, F=2, M=0.5), steps=12),
        fam("abandon", steps=30, timeouts=TO, act=dict(FAULTS, gate=1)),
        fam("threads", steps=25, chain=6, node=MODES),
        fam("parallel", steps=20, clients=6, chain=3, batch=0.9, settle=0.25, us=(20000, 100000), ops=dict(C=8, S=1, L=1, F=1, M=0), act=dict(connect=4), node=MODES),
    ],
    "C04": [
        fam("nested", depth=4, chain=4, ops=dict(C=1, S=1, L=1, F=4, M=3), steps=12),
        fam("wide", depth=2, peers=6, ops=dict(C=1, S=0.5, L=0.5, F=1, M=5), steps=12),
        fam("sizes", big=0.3, recv_max=(0, 500), send_max=(0, 500),  reqsize=(0, 5, 100, 3000, 60000), depth=3, ops=dict(C=1, S=1, L=0, F=5, M=2), steps=10),
        fam("again", depth=3, timeouts=TO, dead=1, steps=20, ops=dict(F=4, M=3), act=dict(tick=6)),
        fam("threads", depth=3, steps=20, ops=dict(F=4, M=3), node=MODES),
    ],
    "C05": [
        fam("quorum", peers=6, steps=30, ops=dict(C=1, S=0, L=0, F=2, M=6), act=dict(ack=12)),
        fam("sequence", peers=4, steps=30, chain=6, ops=dict(C=1, S=0, L=0, F=4, M=4), act=dict(ack=10)),
        fam("late", peers=4, timeouts=(0, 10000, 30000), steps=40, ops=dict(C=1, S=0, L=0, F=3, M=4), act=dict(ack=6, tick=6)),
        fam("gone", peers=4, timeouts=(0, 30000), steps=40, ops=dict(F=3, M=4), act=dict(ack=8, tick=3, close=1.5, reset=1, connect=3)),
        fam("churn", peers=3, clients=2, chain=1, steps=40, ops=dict(C=0.2, S=0, L=0, F=1, M=3), act=dict(close=2, connect=4)),
        fam("threads", peers=4, steps=30, ops=dict(F=3, M=4), act=dict(ack=10), node=MODES),
    ],
    "C06": [
        fam("equal", timeouts=(20000,), retries=(0, 1, 3), steps=40, ops=dict(S=0, L=0, F=5, M=2), act=dict(tick=8)),
        fam("mixed", timeouts=(0, 10000, 20000, 50000, 1500000), dead=1, steps=40, ops=dict(F=5, M=2), act=dict(tick=8)),
        fam("dead", timeouts=(10000, 30000), peers=1, dead=2, steps=30, ops=dict(S=0, L=0, F=5, M=3), act=dict(tick=8)),
        fam("many", timeouts=(10000, 11000, 12000, 20000, 25000, 70000, 999000, 1000000, 3001000), steps=80, clients=4, chain=2, ops=dict(S=0, L=0, F=5, M=2), act=dict(tick=5, ack=8)),
        fam("faults", timeouts=TO, dead=1, steps=30, act=FAULTS),
        fam("threads", timeouts=TO, dead=1, steps=40, clients=6, ops=dict(F=5, M=2), act=dict(tick=8), node=MODES),
    ],
    "C07": [
        fam("faults", timeouts=TO, dead=1, steps=40, act=dict(FAULTS, gate=1)),
        fam("resets", timeouts=(0, 20000), steps=40, act=dict(close=2, reset=3, connect=4, gate=1)),
        fam("targets", timeouts=(0, 20000), dead=1, steps=40, ops=dict(F=5, M=3), act=dict(tick=4, peerdrop=3, peerdown=1, peerup=1.5)),
        fam("midway", steps=30, pieces=0.6, big=0.2, recv_max=(0, 50, 500), send_max=(0, 300, 5000), act=dict(stall=1, close=2, reset=2, connect=4),
            node=dict(sndbuf=(0, 8192))),
        fam("threads", timeouts=TO, dead=1, steps=40, clients=6, act=FAULTS, node=MODES),
    ],
    "C08": [
        fam("wrap", ops=dict(C=1, S=5, L=4, F=0, M=0), steps=25, offs=(-1, -1, -1, 0, 10, 4096), node=dict(max_storage=(10000, 8192, 20000)),
            nbytes=(1, 100, 4096, 5000, 8000)),
        fam("offsets", ops=dict(C=0, S=5, L=5, F=0, M=0), steps=25, offs=(-1, 0, 1, 4095, 8192, 100000), disk_short=(0, 50, 1000)),
        fam("clients", ops=dict(S=5, L=4, F=1), clients=5, steps=30, act=dict(gate=3, close=0.5)),
        fam("direct", ops=dict(C=0, S=5, L=4, F=0, M=0), steps=20, odirect_short=1, node=dict(odirect=True, max_storage=(1 << 20, 40960))),
        fam("huge", ops=dict(C=0, S=5, L=5, F=0, M=0), steps=15, nbytes=(4096, 8192, 40960), offs=(-1, 0, 4096 << 20, 6 << 30, 1 << 40, 4096),
            disk_short=(0,), node=dict(unit=4096, max_storage=1 << 42)),
        fam("sync", ops=dict(S=6, L=4), steps=25, sync=0.5, act=dict(tick=3), node=dict(sync=10)),
    ],
    "C09": [
        fam("sync", ops=dict(C=1, S=8, L=1, F=2, M=1), sync=0.6, steps=25),
        fam("gated", ops=dict(C=1, S=8, L=1, F=2), sync=0.6, steps=30, act=dict(gate=4)),
        fam("period", ops=dict(C=1, S=8, L=1, F=2), sync=0.6, steps=40, act=dict(tick=5), node=dict(sync=(5, 10))),
        fam("gone", ops=dict(C=1, S=8, L=1, F=2), sync=0.6, steps=40, act=dict(tick=4, close=1, reset=1, gate=2), node=dict(sync=(0, 10))),
        fam("threads", ops=dict(C=1, S=8, L=1, F=1), sync=0.6, steps=30, clients=6, act=dict(gate=2), node=MODES),
    ],
    "C10": [
        fam("stats", stats=0.7, judge=at("stat", "died"), act=dict(stat=2)),
        fam("faults", stats=0.7, judge=at("stat", "died"), timeouts=TO, dead=1, steps=40, act=dict(FAULTS, stat=2, gate=1)),
        fam("targets", stats=0.7, judge=at("stat", "died"), timeouts=(0, 20000), dead=2, steps=30, ops=dict(F=5, M=3), act=dict(tick=4, peerdrop=2, peerdown=1, peerup=1, stat=2)),
        fam("threads", stats=0.7, judge=at("stat", "died"), steps=30, clients=6, timeouts=TO, act=dict(FAULTS, stat=2), node=MODES),
    ],
    "C25": [
        fam("mixed", interrupts=INTR),
        fam("disk", interrupts=INTR, ops=dict(S=6, L=4), sync=0.5, steps=25, act=dict(gate=2, tick=2), node=dict(sync=(0, 10))),
        fam("timeouts", interrupts=INTR, timeouts=TO, dead=1, steps=30, ops=dict(F=5, M=3), act=dict(tick=6)),
        fam("cut", interrupts=INTR, recv_max=(1, 7, 40), send_max=(1, 3, 50), eagain=(0, 30, 60), pieces=0.6),
        fam("faults", interrupts=INTR, timeouts=TO, dead=1, steps=30, act=FAULTS),
        fam("threads", interrupts=INTR, timeouts=TO, steps=30, clients=6, act=dict(tick=3), node=MODES),
        fam("ending", interrupts=INTR, abrupt=1, steps=8, timeouts=TO, act=dict(tick=3, gate=1)),
        fam("datagrams", interrupts=INTR, peerproto=("tcp", "udp"), timeouts=TO, steps=25, act=dict(tick=3), node=dict(proto="udp")),
    ],
    "C27": [
        fam("answers", age=("answered", "forwarded", "multi", "intime", "burst", "full"), timeouts=TO, repeat=4, act=dict(tick=2), node=dict(nofile=300)),
        fam("visits", age=("visits", "broken", "late"), timeouts=TO, repeat=4, stats=0.2, act=dict(tick=2), node=dict(nofile=300)),
        fam("failures", age=("expired", "refused", "dropped", "unreachable"), repeat=4, stats=0.2, dead=1, act=FAULTS, node=dict(nofile=300)),
        fam("disk", age=("stored", "stores", "loads"), ops=dict(S=5, L=4, F=1), repeat=4, steps=20, node=dict(nofile=300)),
        fam("datagrams", age=("datagrams",), repeat=4, peerproto=("tcp", "udp"), timeouts=TO, act=dict(tick=2), node=dict(proto="udp", nofile=300)),
        fam("threads", age=("answered", "forwarded", "multi", "intime", "visits", "late", "expired", "refused", "dropped", "broken"),
            repeat=4, clients=6, steps=24, timeouts=(0, 0, 20000), act=dict(tick=1), node=dict(MODES, nofile=300)),
        fam("coming and going", age=("visits",), repeat=4, clients=6, steps=24, timeouts=(0, 0, 20000), act=dict(tick=1),
            node=dict(nt=(2, 3), accept=("child", "parent", "parent", "shared"), nofile=300)),
    ],
    "C21": [
        fam("mixed", empty=0.2, node=dict(proto="udp")),
        fam("senders", empty=0.2, clients=10, steps=40, chain=2, act=dict(connect=6), node=dict(proto="udp")),
        fam("disk", ops=dict(S=5, L=4, F=1), steps=25, act=dict(gate=3), node=dict(proto="udp")),
        fam("forwards", peerproto=("tcp", "udp", "udp"), steps=25, ops=dict(F=4, M=3), act=dict(ack=8), node=dict(proto="udp")),
        fam("timeouts", empty=0.1, peerproto=("tcp", "udp"), timeouts=TO, dead=1, steps=30, ops=dict(F=4, M=2), act=dict(tick=6), node=dict(proto="udp")),
        fam("targets", peerproto=("udp", "udp", "tcp"), timeouts=TO, steps=30, ops=dict(F=5, M=4), act=dict(tick=3, ack=8, close=0.5)),
        fam("threads", steps=30, clients=8, peerproto=("tcp", "udp"), node=dict(proto="udp", nt=(2, 3, 4), accept="child")),
    ],
    "C18": [
        fam("child", steps=40, clients=10, act=dict(connect=8), node=dict(nt=(1, 2, 3, 5), accept="child")),
        fam("parent", steps=40, clients=10, act=dict(connect=8), node=dict(nt=(1, 2, 3, 5), accept="parent")),
        fam("shared", steps=40, clients=10, act=dict(connect=8), node=dict(nt=(1, 2, 3, 5), accept="shared")),
        fam("churn", steps=60, clients=6, batch=0.5, act=dict(connect=8, close=3, reset=1), node=MODES),
        fam("timeouts", timeouts=TO, steps=40, clients=6, act=dict(connect=5, tick=5, gate=1), node=MODES),
    ],
    "C19": [
        fam("any", abrupt=1, steps=8, timeouts=TO, dead=1, act=dict(tick=3, gate=1)),
        fam("gated", abrupt=1, steps=12, ops=dict(S=6, L=4), sync=0.5, act=dict(gate=4), node=dict(sync=(0, 10))),
        fam("faults", abrupt=1, steps=20, timeouts=TO, dead=1, act=FAULTS),
        fam("stalled", abrupt=1, steps=14, big=0.4, rcvbuf=4096, send_max=(0, 0, 1000), recv_max=(0, 0, 3000), act=dict(stall=4), node=dict(sndbuf=(0, 8192))),
        fam("threads", abrupt=1, steps=20, clients=5, timeouts=TO, dead=1, act=dict(FAULTS, gate=1), node=MODES),
        fam("flooded", abrupt=1, flood=1, steps=6, ops=dict(S=3, L=2), node=dict(nt=(1, 1, 2, 3), sync=(0, 10))),
    ],
}

CLIENT = {
    "C11": [
        cfam("mixed"),
        cfam("orders", ns=(1,), max=30, nt=(1, 2), close=0, refuse=0, error=0.8),
        cfam("periods", period=("p", "r", "arith", "arith"), close=0, refuse=0, max=20),
        cfam("spin", spin=1, close=0.2, refuse=0, max=6),
        cfam("datagrams", proto=("udp",), nt=(1,), refuse=0, max=20),
        cfam("threads", nt=(2, 3, 4), ns=(1, 2), pso=0.7),
        cfam("closing", close=1, refuse=0, max=20),
        cfam("pieces", cut=True, big=True, nb=0.5, close=0.1, refuse=0),
    ],
    "C12": [
        cfam("sessions", ns=(2, 3, 4, 6, 8), max=16),
        cfam("refused", refuse=1, retry=1, close=0.3),
        cfam("closing", close=1, ns=(1, 2, 4), max=12),
        cfam("threads", nt=(2, 3), ns=(2, 3, 4), close=0.6, refuse=0.5, retry=1),
        cfam("output", ns=(2, 3, 5), pso=1, close=0.5),
        cfam("datagrams", proto=("udp",), nt=(1,), ns=(2, 3, 4), refuse=0),
    ],
    "C23": [
        cfam("steps", period=("ramp",), nt=(1,), ns=(1,), close=0, refuse=0, big=False),
        cfam("sessions", period=("ramp",), nt=(1, 2), ns=(2, 3, 5), close=0.2, refuse=0.2, big=False, pso=.6),
        cfam("threads", period=("ramp",), nt=(2, 3), ns=(1, 1, 2), close=0, refuse=0, big=False),
        cfam("staggered", period=("p", "r", "ramp"), stag=1, nt=(1, 2, 3, 4), close=0.1, refuse=0.2, big=False),
        cfam("late", period=("ramp",), refuse=1, retry=1, close=0.2, big=False),
    ],
}

SKIPS = {"C": 4, "S": 2, "L": 2, "F": 5, "R": 4, "s": 5}
CLI = {
    "C13": ([ofam("options"), ofam("script", script=1), ofam("sequences", seqs=1, len=(1, 2, 3, 5)),
             ofam("nested", kinds={"C": 1, "F": 5, "R": 4}, len=(3, 5, 8, 12, 20)),
             ofam("storage", kinds={"S": 4, "L": 4, "so": 3, "lo": 3, "C": 1}),
             ofam("long", len=(20, 40))],
            Family("words", cli.word, None, "DWCliTrace", repeat=3), ("CFMRQ", "CSLFMRQ"), (4, 5)),
    "C14": ([ofam("skips", kinds=SKIPS), ofam("script", kinds=SKIPS, script=1),
             ofam("nested", kinds={"C": 2, "F": 5, "R": 5, "s": 4}, len=(4, 6, 9, 14)),
             ofam("many", kinds={"C": 4, "S": 1, "F": 2, "R": 2, "s": 6})],
            Family("words", cli.word, None, "DWCliTrace", repeat=3), ("CFMR12", "CFMRQ123"), (4, 5)),
}

KNOWN = Family("known", cli.strict, None, "DWCliTrace")

# enumerated: (family, items of the quick tier, items of the thorough tier)
UNIT = {
    "C15": ([(Family("heaps", units.heap, None, "DWPQueueTrace", repeat=2), lambda: units.heaps(4), lambda: units.heaps(5)),
             (Family("shapes", units.heap, None, "DWPQueueTrace", repeat=2), lambda: units.shapes(6), lambda: units.shapes(8))],
            [Family("random", units.pqueue, {}, "DWPQueueTrace", repeat=2),
             Family("small", units.pqueue, dict(caps=(1, 2, 3, 4, 5, 6)), "DWPQueueTrace", repeat=2),
             Family("ties", units.pqueue, dict(caps=(7, 8, 12), keys=("few",)), "DWPQueueTrace", repeat=2),
             Family("large", units.pqueue, dict(caps=(100, 300), steps=1200), "DWPQueueTrace", repeat=2)]),
    "C16": ([(Family("windows", units.ops, None, "DWQueueTrace", repeat=2), lambda: units.windows((1, 2, 3, 4, 5), 6, 8),
              lambda: units.windows((1, 2, 3, 4, 5, 6, 7), 7, 9))],
            [Family("random", units.queue, {}, "DWQueueTrace", repeat=2),
             Family("large", units.queue, dict(caps=(50, 100, 101), steps=1500), "DWQueueTrace", repeat=2)]),
}

DIST = {
    "C17": [Family(n, dist.scenario, o, "DWDistTrace", repeat=4) for n, o in (
        ("any", {}),
        ("sequences", dict(kinds=("aseq", "gseq"))),
        ("files", dict(kinds=("file",))),
        ("units", dict(kinds=("fixed",), n=(1, 2))),
        ("random", dict(kinds=("random",), n=(40, 100, 300))),
        ("long", dict(n=(60,))))],
}

AFF = {
    "C20": ((Family("ranges", aff.one, None, "DWAffTrace", repeat=3), lambda: aff.ranges(8, (1, 2, 5)), lambda: aff.ranges(12, (1, 2, 3, 5))),
            [Family("lists", aff.scenario, {}, "DWAffTrace", repeat=3),
             Family("large", aff.scenario, dict(ncpu=(64, 100, 128), nt=(1, 4, 6)), "DWAffTrace", repeat=3)]),
}

ADDR = {
    "C22": (Family("texts", addr.one, None, "DWAddrTrace", repeat=3),
            [Family("mixed", addr.scenario, {}, "DWAddrTrace", repeat=3),
             Family("lists", addr.scenario, dict(sites=("fwd",)), "DWAddrTrace", repeat=3)]),
}

def kfam(name, **opts):
    return Family(name, kernel.server, opts, "DWKernelTrace", repeat=3)


KERNEL = {
    "C24": [kfam("node", steps=14, clients=4, ops=dict(F=4, M=2), act=dict(connect=5)),
            kfam("modes", steps=20, clients=8, ops=dict(S=0, L=0, F=4, M=2), act=dict(connect=6), node=MODES),
            kfam("again", steps=30, clients=4, timeouts=TO, ops=dict(F=5, M=2), act=dict(tick=4, peerdrop=3, close=2, connect=4)),
            kfam("datagrams", steps=14, peerproto=("udp", "tcp"), ops=dict(F=4, M=2), node=dict(proto="udp")),
            Family("client", kernel.sender, {}, "DWKernelTrace", repeat=3)],
}

def sfam(name, **opts):
    return Family(name, system.scenario, opts, "DWSystemTrace", repeat=8)


_NOIO = {"C": 3, "F": 6, "R": 4, "s": 1}
# real clients with real nodes: (all short command lines, seeded systems)
SYSTEM = {
    "C26": ((Family("words", system.word, None, "DWSystemTrace", repeat=6), (("C", "S", "Fa", "Fb", "M", "Mb", "R2", "s"), system.LETTERS), (3, 3)),
            [sfam("mixed"),
             sfam("nested", kinds=_NOIO, len=(4, 6, 8, 10)),
             sfam("crowd", clients=(3, 4), nodes=(1, 2), threads=1),
             sfam("circle", nodes=(1,), kinds={"C": 2, "S": 2, "F": 5, "R": 3}),
             sfam("sessions", kinds={"C": 2, "S": 2, "L": 2, "F": 3, "R": 2}, len=(1, 2, 3), most=60),
             sfam("held", hold=.3, gate=.3)]),
}

# specifications explored completely: module, configuration (quick, thorough)
_F = ("DWNodeMC1", ("DWNodeMC1q.cfg", "DWNodeMC1.cfg"), "forwards, retries, quorums, lost connections, clients leaving")
_L = ("DWNodeMC1", ("DWNodeMC1l.cfg", "DWNodeMC1l.cfg"), "every request is answered in the end")
_S = ("DWNodeMC2", ("DWNodeMC2q.cfg", "DWNodeMC2.cfg"), "storage in pieces, wrap-around, synchronous stores, clients leaving")
_C = ("DWClientMC1", ("DWClientMC1q.cfg", "DWClientMC1.cfg"), "sessions, refused and lost connections, replies in any order, lines")
_T = ("DWClientMC1", (None, "DWClientMC2q.cfg"), "the same with two threads")
_R = ("DWClientMC1", ("DWClientMC3q.cfg", "DWClientMC3q.cfg"), "rate steps and a staggered start in a session that may be lost")
_Q = ("DWClientMC1", (None, "DWClientMC4q.cfg"), "rate steps in two threads, over and over")
_Y = ("DWSystemMC", ("DWSystemMCq.cfg", "DWSystemMC.cfg"), "every short command line on two nodes, all orders: what it says is done, and it ends")
_Z = ("DWSystemMC", (None, "DWSystemMC2.cfg"), "the same with two clients")
_D = ("DWNodeMC2", ("DWNodeMC2q.cfg", "DWNodeMC2q.cfg"), _S[2])
MODELS = {"C26": (_Y, _Z), "C27": (_F, _D), "C01": (_F, _L), "C03": (_F, _S), "C05": (_F,), "C06": (_F,), "C07": (_F,), "C08": (_S,), "C09": (_S,), "C11": (_C, _T),
          "C12": (_C, _T), "C23": (_R, _Q)}
