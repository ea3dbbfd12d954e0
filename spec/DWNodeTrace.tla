--------------------------- MODULE DWNodeTrace ---------------------------
(* Validation of recorded executions of the real node against DWNode.      *)
(* The trace file holds one execution per line: {cfg: ..., ev: [events]}.  *)
(* Every event is one observation made at the system-call boundary of the  *)
(* running program; it must be explained by the corresponding action.      *)
EXTENDS DWNode, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l,
  foc      \* request whose timeout just ran out, which the next event has to depend on

tvars == <<vars, tid, l, foc>>

Ev == Traces[tid].ev

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1 /\ foc = 0
  /\ LET c == Traces[tid].cfg IN
       /\ cfg = [max |-> c.max, period |-> c.period, odirect |-> c.odirect,
                 slack |-> c.slack, grain |-> c.grain, nt |-> c.nt, deal |-> c.deal]
       /\ disk = [pos |-> 0, eof |-> 0, phys |-> c.phys, cur |-> 0, base |-> 0, at |-> 0, left |-> 0]
  /\ now = 0 /\ conns = Empty /\ outs = Empty /\ reqs = Empty /\ fms = Empty /\ stale = {} /\ refused = {}
  /\ spent = [lo |-> 0, hi |-> 0, n |-> 0] /\ nxt = 1 /\ ending = FALSE
  /\ TLCSet(tid, 1)

CpuFloor(e) == e.cpu >= spent'.lo

Who == IF foc = 0 THEN DOMAIN reqs ELSE {foc}

Answers(i, e) ==
  LET r == reqs[i]
  IN r.st = "rep" /\ ~r.gone /\ r.c = e.c /\ r.id = e.id /\ r.ch[r.pc].n = e.n /\ r.status = e.status

Step(e) ==
  CASE e.e = "acc"  -> Accept(e.c)
    [] e.e = "hup"  -> Hangup(e.c, e.peer)
    [] e.e = "open" -> Open(e.k, e.t, e.pr)
    [] e.e = "drop" -> Drop(e.k, e.peer)
    [] e.e = "req"  -> Recv(e.w, e.c, e.id, e.ch)
    [] e.e = "rep"  -> LET S == {i \in Who : Answers(i, e)}
                       IN \* of several equal replies the one that took the least work
                          S # {} /\ LET i == CHOOSE i \in S : \A j \in S : reqs[i].need.us <= reqs[j].need.us
                                   IN Reply(i, e.c, e.id, e.n, e.status) /\ CpuFloor(e)
    [] e.e = "fwd"  -> \/ \E i \in Who : \E p \in reqs[i].pend :
                            Forward(i, p, e.f, e.k, e.n, e.ch, e.status) /\ CpuFloor(e)
                       \/ \E x \in stale : foc = 0 /\ ForwardStale(x, e.f, e.k, e.n, e.ch, e.status)
    [] e.e = "ack"  -> Ack(e.f)
    [] e.e = "io"   -> \E i \in Who : DiskCall(i, e.kind, e.off, e.n) /\ CpuFloor(e)
    [] e.e = "fsync" -> Fsync
    [] e.e = "tick" -> (cfg.slack = 0 => \A i \in DOMAIN reqs : ~Due(i)) = TRUE /\ Tick(e.t)
    [] e.e = "idle" -> /\ AllIdle(e.gated) = TRUE        \* "= TRUE": one evaluation, no branching over disjuncts
                       /\ Len(e.partial) = 0
                       /\ CpuExact(e.cpu, cfg.grain)
                       /\ Lose
                       /\ UNCHANGED <<cfg, now, conns, outs, fms, stale, disk, spent, nxt, ending>>
    [] e.e = "stat" -> e.conns = ActiveConns /\ e.reqs = ActiveReqs /\ UNCHANGED vars
    [] e.e = "intr" -> Interrupted
    [] e.e = "age"  -> Elsewhere(e.n, e.right, e.wrong)
    [] e.e = "flood" -> Underway
    [] e.e = "term" -> Terminate
    [] e.e = "exit" -> Exit(e.code)
    [] OTHER -> FALSE   \* crash, garbage on the wire, stuck: no explanation

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1 /\ foc' = 0
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

\* The only step of the node that need not be visible by itself.  It is
\* taken only in front of an event that it makes a difference for.
Concerns(e, i) ==
  CASE e.e \in {"rep", "fwd", "io"} -> foc = 0
    [] e.e = "ack"  -> e.f \in DOMAIN fms /\ fms[e.f].r = i
    [] e.e = "hup"  -> reqs[i].c = e.c
    [] e.e = "drop" -> ~e.peer
    \* nothing may be overdue here, so the order does not matter
    [] e.e \in {"tick", "idle", "stat"} -> cfg.slack > 0 \/ \A j \in DOMAIN reqs : Due(j) => j >= i
    [] OTHER -> FALSE

Silent ==
  /\ l <= Len(Ev)
  /\ \E i \in DOMAIN reqs : i > foc /\ Concerns(Ev[l], i) = TRUE /\ Expire(i) /\ foc' = i
  /\ UNCHANGED <<tid, l>>

TraceNext == Observe \/ Silent

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* verdict per execution: how far it could be explained
Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

\* used only to show the state in which an execution could not be explained
Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
