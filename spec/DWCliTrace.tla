--------------------------- MODULE DWCliTrace ---------------------------
(* Validation of the requests the real client sends for given options.    *)
(* One run per line: {cfg: {opts, ps, sz}, ev: [{e: "req", ch, n}, ...]}   *)
EXTENDS DWCli, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l,
  can     \* the requests that are possible

tvars == <<tid, l, can>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ can = Outcomes(Template(Cfg.opts), 1)
  /\ TLCSet(tid, 1)

Step(e) ==
  CASE e.e = "req" -> \E x \in can :
                        /\ e.ch = Request(x, l)
                        \* which shapes cannot be read back is a known finding, shown with one input
                        /\ Cfg.near \/ Readable(x)
                        \* too small a size grows to what the commands need (skips may count as if not taken)
                        /\ LET ps == Nth(Cfg.ps, l) IN
                             /\ e.n >= Max2(ps, Bytes(Cfg.sz, x, 1))
                             /\ e.n <= Max2(ps, Bytes(Cfg.sz, Template(Cfg.opts), 1))
    [] e.e = "exit" -> e.code = 0 /\ l = Cfg.n + 1
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l]) = TRUE
  /\ l' = l + 1
  /\ UNCHANGED <<tid, can>>
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
