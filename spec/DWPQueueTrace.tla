-------------------------- MODULE DWPQueueTrace --------------------------
(* Validation of operation sequences run on the real priority queue.               *)
EXTENDS DWPQueue, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l

tvars == <<tid, l, live, top, pcap>>

Ev == Traces[tid].ev

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ live = <<>>
  /\ top = 0
  /\ pcap = 0
  /\ TLCSet(tid, 1)

Step(e) ==
  IF e.e = "end" THEN l = Len(Ev) /\ UNCHANGED pvars
  ELSE /\ CASE e.e = "new" -> PNew(Traces[tid].cfg.cap)
            [] e.e = "ins" -> Ins(e.h, e.k, e.d)
            [] e.e = "rm"  -> Rm(e.h)
            [] e.e = "pop" -> Pop
            [] OTHER -> FALSE
       /\ PLooks(live', pcap', e) = TRUE
       /\ top' = e.top

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A i \in 1..N : PrintT(<<"VERDICT", i, IF TLCGet(i) = Len(Traces[i].ev) + 1 THEN "accepted" ELSE "rejected", TLCGet(i)>>)
Stop == l < atoi(IOEnv.DW_STOP)
=============================================================================
