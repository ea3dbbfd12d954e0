-------------------------- MODULE DWQueueTrace --------------------------
(* Validation of operation sequences run on the real queue.               *)
EXTENDS DWQueue, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l

tvars == <<tid, l, q, cap>>

Ev == Traces[tid].ev

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ q = <<>>
  /\ cap = 0
  /\ TLCSet(tid, 1)

Step(e) ==
  IF e.e = "end" THEN l = Len(Ev) /\ UNCHANGED qvars
  ELSE /\ CASE e.e = "new"  -> New(Traces[tid].cfg.cap)
            [] e.e = "enq"  -> Enq(e.k, e.d, e.h)
            [] e.e = "deqh" -> DeqHead
            [] e.e = "deqt" -> DeqTail
            [] e.e = "drop" -> Drop
            [] OTHER -> FALSE
       /\ Looks(q', cap', e)

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A i \in 1..N : PrintT(<<"VERDICT", i, IF TLCGet(i) = Len(Traces[i].ev) + 1 THEN "accepted" ELSE "rejected", TLCGet(i)>>)
Stop == l < atoi(IOEnv.DW_STOP)
=============================================================================
