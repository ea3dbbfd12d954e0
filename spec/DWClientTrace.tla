-------------------------- MODULE DWClientTrace --------------------------
(* Validation of recorded executions of the real client against DWClient. *)
EXTENDS DWClient, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l
tvars == <<cvars, tid, l>>

Ev == Traces[tid].ev

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ cfg = Traces[tid].cfg
  /\ now = 0 /\ thr = Empty /\ log = Empty /\ name = Empty /\ out = Empty /\ est = Empty /\ eout = Empty
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "conn"  -> Connect(e.w, e.c, e.ok, e.lo, e.at, e.hi)
    [] e.e = "snd"   -> Send(e.c, e.id, e.n, e.ch, e.ok, e.lo, e.at)
    [] e.e = "rcv"   -> Receive(e.c, e.id, e.st, e.at, e.hi)
    [] e.e = "lost"  -> Lose(e.c, e.at)
    [] e.e = "shut"  -> Shut(e.c, e.at)
    [] e.e = "close" -> Close(e.c, e.at)
    [] e.e = "quiet" -> Quiet(e.at)
    [] e.e = "line"  -> Line(e.thr, e.id, e.sess, e.t, e.el)
    [] e.e = "ctime" -> ConnLine(e.thr, e.id, e.sess, e.el)
    [] e.e = "exit"  -> Exit(e.code)
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
