--------------------------- MODULE DWKernelTrace ---------------------------
(* Validation of socket options and scheduling of the real programs.        *)
(* {cfg: {nd, bl, pol, lis}, ev: [{e: "listen", n} | {e: "sched", w, at} |    *)
(*  {e: "serve", w} | {e: "send", nd} | {e: "end"}]}; lis: it has to listen     *)
EXTENDS DWKernel, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l, sched, lis

tvars == <<tid, l, sched, lis>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ sched = <<>>
  /\ lis = 0
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "listen" -> e.n = Backlog(Cfg) /\ lis' = lis + 1 /\ UNCHANGED sched
    [] e.e = "sched" -> sched' = (e.w :> e.at) @@ sched /\ UNCHANGED lis
    \* a thread that takes requests runs with the policy asked for
    [] e.e = "serve" -> /\ (IF e.w \in DOMAIN sched THEN Same(sched[e.w], Policy(Cfg.pol)) ELSE Cfg.pol.k = "") = TRUE
                        /\ UNCHANGED <<sched, lis>>
    [] e.e = "send" -> /\ (e.nd # 0) = (NoDelay(Cfg) # 0)
                       /\ UNCHANGED <<sched, lis>>
    [] e.e = "end" -> (Cfg.lis => lis > 0) = TRUE /\ UNCHANGED <<sched, lis>>
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
