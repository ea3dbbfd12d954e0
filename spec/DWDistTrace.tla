--------------------------- MODULE DWDistTrace ---------------------------
(* Validation of the numbers in the requests a real client sends.          *)
(* {cfg: {ds: [distribution...], n}, ev: [{e: "req", v: [value...]}...]}    *)
EXTENDS DWDist, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l,
  src       \* where every source stands

tvars == <<tid, l, src>>

Ev == Traces[tid].ev
Ds == Traces[tid].cfg.ds

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ src = [i \in DOMAIN Ds |-> Begin(Ds[i])]
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "req" -> /\ l <= Traces[tid].cfg.n
                      /\ Len(e.v) = Len(Ds)
                      /\ (\A i \in DOMAIN Ds : Gives(Ds[i], src[i], e.v[i])) = TRUE
                      /\ src' = [i \in DOMAIN Ds |-> After(Ds[i], src[i])]
    [] e.e = "exit" -> e.code = 0 /\ l = Traces[tid].cfg.n + 1 /\ UNCHANGED src
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
