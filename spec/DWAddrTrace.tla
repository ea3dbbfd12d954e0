---------------------------- MODULE DWAddrTrace ----------------------------
(* Validation of the addresses the real programs use.                       *)
(* {cfg: {as: [address], any: [bool], hosts}, ev: [{e: "use", i, pr, ip, port}..., *)
(*  {e: "end", up, code}]}; any[i]: the protocol of address i is not its own   *)
EXTENDS DWAddr, FiniteSets, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l, used

tvars == <<tid, l, used>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Good == \A i \in DOMAIN Cfg.as : Resolves(Cfg.as[i], Cfg.hosts)

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ used = {}
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "use" -> LET u == Use(Cfg.as[e.i], Cfg.hosts)
                      IN /\ Good
                         /\ e.ip = u.ip
                         /\ e.port = u.port
                         /\ (Cfg.any[e.i] \/ e.pr = u.pr) = TRUE
                         /\ used' = used \cup {e.i}
    \* an address that cannot be resolved is refused before anything is done
    [] e.e = "end" -> /\ (IF Good THEN used = DOMAIN Cfg.as ELSE used = {} /\ ~e.up /\ e.code > 0) = TRUE
                      /\ UNCHANGED used
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
