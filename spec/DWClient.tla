---------------------------- MODULE DWClient ----------------------------
(* The load generator.  Each of its threads runs the configured number of  *)
(* sessions one after the other; a session is one connection on which the  *)
(* session's requests are sent, paced by the period, while their replies   *)
(* come back in any order.  At the end one line per request says when it   *)
(* was sent and how long its own reply took.                               *)
(*                                                                         *)
(* Time passes only while the client waits, so the recorded times are      *)
(* exact up to cfg.grain (readings of the clock move it on a little).      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,     \* nt threads, ns sessions each, pps requests per session, per: periods in turn (us),
           \* tries per connection, pause between them (us), lo/hi request sizes, ch: the commands,
           \* pso: output after each session, grain,
           \* ramp: us per step of the rate (0: none), rates: requests per second in every step
           \* (then the last one stays, or cycle: they start over),
           \* auto: as many requests as the steps ask for, stag: when the first of staggered threads starts (-1: all at once),
           \* ct: the time every connection takes is printed
  now,     \* time of the last observation
  thr,     \* thread -> [s, att, fail, beg, blo, c, slip, due, k, sent, got, lost, shut, dead]
  log,     \* thread -> request id -> [lo, at, rat, hi]: sent between lo and at, good reply between
           \* rat and hi  (rat = 0: none)
  name,    \* number printed for a thread -> thread
  out,     \* number printed for a thread -> next request id to be printed
  est,     \* thread -> for every session so far, how long getting its connection took [lo, hi]
  eout     \* number printed for a thread -> next session whose connection time is to be printed

cvars == <<cfg, now, thr, log, name, out, est, eout>>

None == "-"
Empty == [x \in {} |-> 0]

Fresh == [s |-> 0, att |-> 0, fail |-> 0, beg |-> -1, blo |-> 0, c |-> None, slip |-> 0, due |-> 0, k |-> 0, sent |-> 0, got |-> {},
          lost |-> FALSE, shut |-> FALSE, dead |-> FALSE]

T(w) == IF w \in DOMAIN thr THEN thr[w] ELSE Fresh

RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)

\* requests per session and in all
Pps == IF cfg.auto THEN (SumTo(cfg.rates, Len(cfg.rates)) * (cfg.ramp \div 1000000) + cfg.ns - 1) \div cfg.ns ELSE cfg.pps
Total == cfg.ns * Pps

\* what the k-th request sent by a thread, at a time of step s, leaves to the next one
Period(k, s) ==
  IF cfg.ramp = 0 THEN cfg.per[(k % Len(cfg.per)) + 1]
  ELSE 1000000 \div cfg.rates[IF s < Len(cfg.rates) THEN s + 1 ELSE IF cfg.cycle THEN (s % Len(cfg.rates)) + 1 ELSE Len(cfg.rates)]

\* the steps that an instant between lo and at may belong to
Steps(lo, at) == IF cfg.ramp = 0 THEN {0} ELSE ((IF lo > cfg.grain THEN lo - cfg.grain ELSE 0) \div cfg.ramp)..(at \div cfg.ramp)

\* when the j-th thread (from 0) starts
Starts(j) == IF cfg.stag >= 0 THEN cfg.stag + (j * Period(0, 0)) \div cfg.nt ELSE 0

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Owner(c) == CHOOSE w \in DOMAIN thr : thr[w].c = c
Known(c) == \E w \in DOMAIN thr : thr[w].c = c

\* the session has nothing left to wait for
Over(x) == x.lost \/ Cardinality(x.got) = Pps

--------------------------------------------------------------------------
\* thread w tries to connect for its next session
\* (slip: the clock may have moved on by so much before the client went on)
Connect(w, c, ok, lo, at, hi) ==
  LET x == T(w) IN
  /\ at >= now
  /\ w \in DOMAIN thr \/ (Cardinality(DOMAIN thr) < cfg.nt /\ at >= Starts(Cardinality(DOMAIN thr)))
  /\ x.c = None /\ x.s < cfg.ns
  /\ x.att < cfg.tries
  /\ x.att > 0 => at >= x.fail + cfg.pause
  /\ now' = at
  /\ thr' = With(thr, w,
       IF ok THEN [Fresh EXCEPT !.s = x.s, !.c = c, !.slip = hi - at, !.due = at, !.k = x.k]
             ELSE [x EXCEPT !.att = @ + 1, !.fail = at, !.slip = hi - at,
                            !.beg = IF @ < 0 THEN at ELSE @, !.blo = IF x.beg < 0 THEN lo ELSE @])
  /\ log' = IF w \in DOMAIN log THEN log ELSE With(log, w, Empty)
  /\ LET e == [lo |-> IF x.beg < 0 THEN 0 ELSE at - x.beg, hi |-> hi - (IF x.beg < 0 THEN lo ELSE x.blo)]
     IN est' = IF ok THEN With(est, w, IF w \in DOMAIN est THEN Append(est[w], e) ELSE <<e>>) ELSE est
  /\ UNCHANGED <<cfg, name, out, eout>>

\* the next request of the session goes out on its connection
Send(c, id, n, ch, ok, lo, at) ==
  /\ at >= now
  /\ Known(c)
  /\ LET w == Owner(c)
         x == thr[w]
     IN /\ ~x.dead
        /\ x.sent < Pps
        /\ id = x.s * Pps + x.sent
        /\ at >= x.due
        /\ ch = cfg.ch
        /\ n >= cfg.lo /\ n <= cfg.hi
        /\ ok => ~x.shut
        /\ \E s \in Steps(lo, at) :
             thr' = [thr EXCEPT ![w] = [x EXCEPT !.sent = @ + 1, !.dead = ~ok,
                       !.k = IF ok THEN @ + 1 ELSE @,
                       !.due = @ + Period(x.k, s)]]
        /\ log' = [log EXCEPT ![w] = With(@, id, [lo |-> lo, at |-> at, rat |-> 0, hi |-> 0])]
  /\ now' = at
  /\ UNCHANGED <<cfg, name, out, est, eout>>

\* a reply has completely arrived
Receive(c, id, status, at, hi) ==
  /\ at >= now
  /\ Known(c)
  /\ LET w == Owner(c)
         x == thr[w]
     IN /\ id \in DOMAIN log[w] /\ id \notin x.got
        /\ ~x.lost
        /\ thr' = [thr EXCEPT ![w].got = @ \cup {id}]
        /\ log' = IF status = 0 THEN [log EXCEPT ![w][id].rat = at, ![w][id].hi = hi] ELSE log
  /\ now' = at
  /\ UNCHANGED <<cfg, name, out, est, eout>>

\* the server's end of the connection is gone
Lose(c, at) ==
  /\ at >= now
  /\ Known(c)
  /\ thr' = [thr EXCEPT ![Owner(c)].lost = TRUE]
  /\ now' = at
  /\ UNCHANGED <<cfg, log, name, out, est, eout>>

Shut(c, at) ==
  /\ at >= now
  /\ Known(c)
  /\ Over(thr[Owner(c)])
  /\ thr' = [thr EXCEPT ![Owner(c)].shut = TRUE]
  /\ now' = at
  /\ UNCHANGED <<cfg, log, name, out, est, eout>>

\* the end of a session: only when all its replies are there, or cannot come any more
Close(c, at) ==
  /\ at >= now
  /\ Known(c)
  /\ LET w == Owner(c) IN
       /\ Over(thr[w])
       /\ thr' = [thr EXCEPT ![w] = [Fresh EXCEPT !.s = thr[w].s + 1, !.k = thr[w].k]]
  /\ now' = at
  /\ UNCHANGED <<cfg, log, name, out, est, eout>>

--------------------------------------------------------------------------
\* nothing more happens until time passes or the server acts: nothing may be left undone
AtRest(at) ==
  /\ \A j \in Cardinality(DOMAIN thr)..(cfg.nt - 1) : cfg.stag >= 0 /\ at < Starts(j) + cfg.grain
  /\ \A w \in DOMAIN thr :
       LET x == thr[w] IN
       IF x.c = None
       THEN \* all done, or waiting for the next attempt
            IF x.s = cfg.ns THEN TRUE
            ELSE x.att > 0 /\ at < x.fail + x.slip + cfg.pause + cfg.grain
       ELSE IF Over(x)
       THEN \* the sender may be in its last pause
            ~x.dead /\ at < x.due + x.slip + cfg.grain
       ELSE ~x.dead => x.sent = Pps \/ at < x.due + x.slip + cfg.grain

Quiet(at) ==
  /\ at >= now
  /\ AtRest(at)
  /\ now' = at
  /\ UNCHANGED <<cfg, thr, log, name, out, est, eout>>

--------------------------------------------------------------------------
Within(x, lo, hi) == x >= lo - cfg.grain /\ x <= hi + cfg.grain

\* the line printed for a request
LineFor(w, id, t, el) ==
  IF id \notin DOMAIN log[w] THEN ~cfg.pso /\ t = 0 /\ el = 0
  ELSE LET r == log[w][id] IN
       /\ Within(t, r.lo, r.at)
       /\ IF r.rat = 0 THEN el = 0 ELSE el > 0 /\ Within(t + el, r.rat, r.hi)

\* the next request that has to be printed, from id on
RECURSIVE NextOut(_, _)
NextOut(w, id) == IF cfg.pso /\ id < Total /\ id \notin DOMAIN log[w] THEN NextOut(w, id + 1) ELSE id

Line(n, id, sess, t, el) ==
  /\ n \in 0..(cfg.nt - 1)
  /\ sess = id \div Pps
  /\ \E w \in DOMAIN thr :
       /\ IF n \in DOMAIN name THEN name[n] = w ELSE \A m \in DOMAIN name : name[m] # w
       /\ id = NextOut(w, IF n \in DOMAIN out THEN out[n] ELSE 0)
       /\ id < Total
       /\ LineFor(w, id, t, el)
       /\ name' = With(name, n, w)
  /\ out' = With(out, n, id + 1)
  /\ UNCHANGED <<cfg, now, thr, log, est, eout>>

\* the line printed for a connection
ConnLine(n, id, sess, el) ==
  /\ cfg.ct
  /\ n \in 0..(cfg.nt - 1)
  /\ sess = (IF n \in DOMAIN eout THEN eout[n] ELSE 0) /\ id = sess * Pps
  /\ \E w \in DOMAIN est :
       /\ IF n \in DOMAIN name THEN name[n] = w ELSE \A m \in DOMAIN name : name[m] # w
       /\ sess < Len(est[w])
       /\ Within(el, est[w][sess + 1].lo, est[w][sess + 1].hi)
       /\ name' = With(name, n, w)
  /\ eout' = With(eout, n, sess + 1)
  /\ UNCHANGED <<cfg, now, thr, log, out, est>>

Done(w) == thr[w].c = None /\ thr[w].s = cfg.ns

Exit(code) ==
  /\ IF code = 0
     THEN /\ Cardinality(DOMAIN thr) = cfg.nt
          /\ \A w \in DOMAIN thr : Done(w)
          /\ \A w \in DOMAIN thr :
               NextOut(w, 0) = Total \/ \E n \in DOMAIN name : name[n] = w /\ NextOut(w, out[n]) = Total
          /\ cfg.ct => \A n \in 0..(cfg.nt - 1) : n \in DOMAIN eout /\ eout[n] = cfg.ns
     ELSE /\ code = 1
          /\ \E w \in DOMAIN thr : thr[w].c = None /\ thr[w].att = cfg.tries
  /\ UNCHANGED cvars
=========================================================================
