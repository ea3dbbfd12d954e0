----------------------------- MODULE DWClientMC -----------------------------
(* Small instances of DWClient, explored completely.                          *)
EXTENDS DWClient, TLC

CONSTANTS Cfg, Threads, Refusals, Losses, Horizon

VARIABLES
  t,        \* the clock
  trail,    \* what every thread did, in order
  left,     \* [r, l]: refusals and losses still to come
  lines,    \* lines printed: set of [n, id, el], and how many
  code      \* exit code, -1 while running

mvars == <<cvars, t, trail, left, lines, code>>

MInit ==
  /\ cfg = Cfg /\ now = 0 /\ thr = Empty /\ log = Empty /\ name = Empty /\ out = Empty /\ est = Empty /\ eout = Empty
  /\ t = 1 /\ trail = [w \in Threads |-> <<>>] /\ left = [r |-> Refusals, l |-> Losses] /\ lines = <<>> /\ code = -1

Note(w, x) == trail' = [trail EXCEPT ![w] = Append(@, x @@ [at |-> t])]
Running == code = -1

\* a connection is named after its thread and session
Name(w) == ToString(<<w, T(w).s>>)

MConnect == \E w \in Threads, ok \in BOOLEAN :
  /\ Connect(w, Name(w), ok, t, t, t)
  /\ IF ok THEN UNCHANGED left ELSE left.r > 0 /\ left' = [left EXCEPT !.r = @ - 1]
  /\ Note(w, [k |-> "connect", s |-> T(w).s, ok |-> ok])
  /\ UNCHANGED <<t, lines, code>>

\* the client sends as soon as it is time
MSend == \E w \in DOMAIN thr :
  LET x == thr[w] id == x.s * Pps + x.sent IN
  /\ x.c # None
  /\ Send(x.c, id, cfg.lo, cfg.ch, ~x.lost, t, t)
  /\ Note(w, [k |-> "send", id |-> id])
  /\ UNCHANGED <<t, left, lines, code>>

MReceive == \E w \in DOMAIN thr : \E id \in DOMAIN log[w], status \in {0, -1} :
  /\ thr[w].c # None /\ id \div Pps = thr[w].s
  /\ Receive(thr[w].c, id, status, t, t)
  /\ Note(w, [k |-> "reply", id |-> id, status |-> status])
  /\ UNCHANGED <<t, left, lines, code>>

MLose == \E w \in DOMAIN thr :
  /\ left.l > 0 /\ thr[w].c # None /\ ~thr[w].lost
  /\ Lose(thr[w].c, t)
  /\ left' = [left EXCEPT !.l = @ - 1]
  /\ Note(w, [k |-> "lost"])
  /\ UNCHANGED <<t, lines, code>>

MClose == \E w \in DOMAIN thr :
  /\ thr[w].c # None /\ (thr[w].sent = Pps \/ thr[w].dead \/ thr[w].lost) = TRUE
  /\ Close(thr[w].c, t)
  /\ Note(w, [k |-> "close"])
  /\ UNCHANGED <<t, left, lines, code>>

Finished == \A w \in Threads : w \in DOMAIN thr /\ Done(w)

MLine == \E w \in Threads, n \in 0..(cfg.nt - 1) :
  /\ Finished
  /\ LET id == NextOut(w, IF n \in DOMAIN out THEN out[n] ELSE 0)
         at == IF id \in DOMAIN log[w] THEN log[w][id].at ELSE 0
         el == IF id \in DOMAIN log[w] /\ log[w][id].rat > 0 THEN log[w][id].rat - at ELSE 0
     IN /\ id < Total
        /\ (n \in DOMAIN name => name[n] = w) = TRUE
        /\ Line(n, id, id \div Pps, at, el)
        /\ name'[n] = w
        /\ lines' = Append(lines, [w |-> w, id |-> id, t |-> at, el |-> el])
  /\ UNCHANGED <<t, trail, left, code>>

MExit == \E x \in {0, 1} : Exit(x) /\ code' = x /\ UNCHANGED <<t, trail, left, lines>>

MTick == t < Horizon /\ AtRest(t) = TRUE /\ t' = t + 1 /\ UNCHANGED <<cvars, trail, left, lines, code>>

MNext == Running /\ (MConnect \/ MSend \/ MReceive \/ MLose \/ MClose \/ MLine \/ MExit \/ MTick)
MSpec == MInit /\ [][MNext]_mvars
MFair == MSpec /\ WF_mvars(Running /\ (MConnect \/ MSend)) /\ WF_mvars(Running /\ MReceive) /\ WF_mvars(Running /\ MClose)
               /\ WF_mvars(Running /\ MLine) /\ WF_mvars(Running /\ MExit) /\ WF_mvars(Running /\ MTick)

------------------------------------------------------------------------------
Pick(s, k) == SelectSeq(s, LAMBDA x : x.k = k)
Sends(w) == Pick(trail[w], "send")

\* C11: requests are numbered one after the other, within their session, and sent once
Numbered == \A w \in Threads : \A i, j \in DOMAIN Sends(w) : i < j => Sends(w)[i].id < Sends(w)[j].id

\* C11: pacing: the k-th request of a session not before the sum of the periods in front of it
Began(w, s) == LET c == SelectSeq(trail[w], LAMBDA x : IF x.k = "connect" THEN x.ok /\ x.s = s ELSE FALSE) IN c[Len(c)].at
RECURSIVE Sum(_, _)
Sum(a, b) == IF a >= b THEN 0 ELSE cfg.per[(a % Len(cfg.per)) + 1] + Sum(a + 1, b)
Paced == cfg.ramp = 0 => \A w \in Threads : \A i \in DOMAIN Sends(w) :
  LET x == Sends(w)[i] IN (Losses = 0 => x.at >= Began(w, x.id \div Pps) + Sum((x.id \div Pps) * Pps, x.id)) = TRUE

\* C23: every request leaves to the next one of its session the time that the rate of its step says, and a
\* thread that is not held up sends as many as fit
RateAt(s) == cfg.rates[IF s < Len(cfg.rates) THEN s + 1 ELSE IF cfg.cycle THEN (s % Len(cfg.rates)) + 1 ELSE Len(cfg.rates)]
Same(w, i) == Sends(w)[i].id \div Pps = Sends(w)[i + 1].id \div Pps
Stepped == cfg.ramp > 0 => \A w \in Threads : \A i \in 1..(Len(Sends(w)) - 1) : Same(w, i) =>
  LET x == Sends(w)[i] y == Sends(w)[i + 1] IN y.at - x.at = 1000000 \div RateAt(x.at \div cfg.ramp)

\* C23: staggered threads start at equal parts of the period
Firsts == {trail[w][1].at : w \in {v \in Threads : trail[v] # <<>>}}
Staggered == cfg.stag >= 0 => \A x \in Firsts : \E j \in 0..(cfg.nt - 1) : x = cfg.stag + (j * (1000000 \div RateAt(0))) \div cfg.nt

\* C12: attempts: never more than allowed in a row, never closer than the pause
Attempts(w) == Pick(trail[w], "connect")
Retrying == \A w \in Threads : LET a == Attempts(w) IN
  /\ \A i \in DOMAIN a : ~a[i].ok /\ i < Len(a) => a[i + 1].s = a[i].s /\ a[i + 1].at >= a[i].at + cfg.pause
  /\ \A s \in 0..(cfg.ns - 1) : Len(SelectSeq(a, LAMBDA x : x.s = s)) <= cfg.tries
  /\ \A s \in 0..(cfg.ns - 1) : Len(SelectSeq(a, LAMBDA x : x.s = s /\ x.ok)) <= 1

\* C12: a session ends when all its replies are in, or its connection is lost
Ends == \A w \in Threads : \A i \in DOMAIN trail[w] : trail[w][i].k = "close" =>
  LET before == SubSeq(trail[w], 1, i)
      n == Len(Pick(before, "close"))
      part == SelectSeq(before, LAMBDA x : (x.k = "reply" /\ x.id \div Pps = n - 1))
  IN Len(part) = Pps \/ Len(Pick(before, "lost")) > 0

\* C11: the lines: one per request, its own times
Lines ==
  /\ \A i, j \in DOMAIN lines : i # j => lines[i].w # lines[j].w \/ lines[i].id # lines[j].id
  /\ \A i \in DOMAIN lines :
       LET x == lines[i]
           s == SelectSeq(Sends(x.w), LAMBDA y : y.id = x.id)
           r == SelectSeq(trail[x.w], LAMBDA y : IF y.k = "reply" THEN y.id = x.id /\ y.status = 0 ELSE FALSE)
       IN /\ x.t = (IF s = <<>> THEN 0 ELSE s[1].at)
          /\ x.el = (IF r = <<>> THEN 0 ELSE r[1].at - s[1].at)
Complete == code = 0 => \A w \in Threads : Cardinality({i \in DOMAIN lines : lines[i].w = w}) = Total

\* C12: it comes to an end
Terminates == <>(code # -1 \/ t = Horizon)
==============================================================================
