---------------------------- MODULE DWAffTrace ----------------------------
(* Validation of the pinning calls of the real node while it starts.        *)
(* {cfg: {list, nt, sto, ncpu}, ev: [{e: "pin", who, cores}..., {e: "up"}]}  *)
EXTENDS DWAff, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l, pinned

tvars == <<tid, l, pinned>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Threads == 0..(Cfg.nt - 1 + (IF Cfg.sto THEN 1 ELSE 0))

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ pinned = {}
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "pin" -> /\ Len(Cfg.list) > 0
                      /\ e.who \in Threads
                      /\ e.cores = <<CoreOf(Cfg.list, e.who)>>
                      /\ pinned' = pinned \cup {e.who}
    [] e.e = "up" -> /\ pinned = (IF Len(Cfg.list) > 0 THEN Threads ELSE {})
                     /\ UNCHANGED pinned
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
