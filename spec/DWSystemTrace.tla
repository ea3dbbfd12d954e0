-------------------------- MODULE DWSystemTrace --------------------------
(* Validation of executions of real clients with real nodes.              *)
(* {cfg: {clients: [{name, opts, total, to}], grain}, ev: [...]}            *)
EXTENDS DWSystem, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.DW_TRACES)
N == Len(Traces)

VARIABLES tid, l,
  can     \* what the requests of every client may be

tvars == <<vars, tid, l, can>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
Names(t) == {Traces[t].cfg.clients[i].name : i \in 1..Len(Traces[t].cfg.clients)}
Client(c) == LET i == CHOOSE i \in 1..Len(Cfg.clients) : Cfg.clients[i].name = c IN Cfg.clients[i]

TraceInit ==
  /\ tid \in 1..N
  /\ l = 1
  /\ acts = Nothing /\ net = Nothing /\ fms = Nothing /\ late = {} /\ work = Nothing /\ seen = Nothing /\ nxt = 1
  /\ asked = [c \in Names(tid) |-> {}] /\ done = [c \in Names(tid) |-> <<>>] /\ count = [c \in Names(tid) |-> 0]
  /\ can = [c \in Names(tid) |-> {Request(x, 1) : x \in {y \in Outcomes(Template(Client(c).opts), 1) : Readable(y)}}]
  /\ TLCSet(tid, 1)

Least(S) == CHOOSE i \in S : \A j \in S : i <= j
\* of those that are alike in everything, one is as good as the other
Distinct(S) == {i \in S : \A j \in S : acts[j] = acts[i] => i <= j}
\* Which of several like requests forwards?  In most executions the one that could do so first; what
\* cannot be explained like that is looked at again with a free choice.
Alike(a, b) == a.ch = b.ch /\ a.pc = b.pc
First(S) == IF Cfg.fifo THEN {i \in S : acts[i].fid >= 0 \/ \A j \in S : acts[j].fid < 0 /\ Alike(acts[i], acts[j]) => acts[i].since <= acts[j].since}
            ELSE Distinct(S)

Step(e) ==
  CASE e.e = "open" -> Open(e.k, e.fr, e.to)
    [] e.e = "ask"  -> net[e.k].to = Client(e.c).to /\ e.ch \in can[e.c] /\ Ask(e.c, e.k, e.id, e.ch)
    [] e.e = "take" -> Take(e.p, e.k, e.id, e.ch)
    [] e.e = "io"   -> Disk(e.p, e.kind, e.n)
    [] e.e = "fwd"  -> \/ \E i \in First({i \in DOMAIN acts : acts[i].p = e.p /\ acts[i].pend # {}}) :
                            LET J == {j \in acts[i].pend : acts[i].ch[j].t = net[e.k].to}
                            IN J # {} /\ Pass(i, Least(J), e.k, e.id, e.ch, e.n)
                       \/ \E x \in late : x.p = e.p /\ PassLate(x, e.k, e.id, e.ch, e.n)
    [] e.e = "ack"  -> Back(e.p, e.k, e.id, e.st)
    [] e.e = "rep"  -> LET S == {i \in DOMAIN acts : acts[i].p = e.p /\ acts[i].k = e.k /\ acts[i].id = e.id /\ Op(acts[i]) = "R"}
                       IN S # {} /\ Answer(Least(S), e.k, e.id, e.n, e.st)
    [] e.e = "got"  -> Got(e.c, e.k, e.id, e.st)
    [] e.e = "line" -> Line(e.c, e.id)
    [] e.e = "exit" -> e.code = 0 /\ asked[e.c] = {} /\ count[e.c] = Client(e.c).total /\ done[e.c] = <<>> /\ UNCHANGED vars
    [] e.e = "end"  -> /\ AtRest
                       /\ \A i \in 1..Len(e.cpu) :
                            LET x == e.cpu[i]
                                s == Of(work, x.p)
                            IN x.us >= s.us /\ x.us <= s.us + Cfg.grain * s.n
                       /\ UNCHANGED vars
    [] OTHER -> FALSE

Observe ==
  /\ l <= Len(Ev)
  /\ Step(Ev[l])
  /\ l' = l + 1
  /\ UNCHANGED <<tid, can>>
  /\ TLCSet(tid, IF TLCGet(tid) > l' THEN TLCGet(tid) ELSE l')

TraceSpec == TraceInit /\ [][Observe]_tvars

Report ==
  \A t \in 1..N : PrintT(<<"VERDICT", t, IF TLCGet(t) > Len(Traces[t].ev) THEN "accepted" ELSE "rejected", TLCGet(t)>>)

Stop == l < atoi(IOEnv.DW_STOP)
==========================================================================
