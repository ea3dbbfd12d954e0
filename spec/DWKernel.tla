------------------------------ MODULE DWKernel ------------------------------
(* What the programs ask of the kernel because of their options.            *)
(* opt: nd (0, 1, -1 not given), bl (-1 not given), pol [k, a, b]            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoDelay(opt) == IF opt.nd = -1 THEN 1 ELSE opt.nd
Backlog(opt) == IF opt.bl = -1 THEN 5 ELSE opt.bl

\* times in us
Policy(p) ==
  LET none == [pol |-> "other", nice |-> 0, prio |-> 0, run |-> 0, dl |-> 0, per |-> 0]
  IN CASE p.k = "" -> none
       [] p.k = "other" -> [none EXCEPT !.nice = p.a]
       [] p.k \in {"rr", "fifo"} -> [none EXCEPT !.pol = p.k, !.prio = p.a]
       [] p.k = "dl" -> [none EXCEPT !.pol = "dl", !.run = p.a, !.dl = p.b, !.per = p.b]

\* only what the policy looks at counts
Same(x, y) == /\ x.pol = y.pol
              /\ (x.pol = "other" => x.nice = y.nice)
              /\ (x.pol \in {"rr", "fifo"} => x.prio = y.prio)
              /\ (x.pol = "dl" => x.run = y.run /\ x.dl = y.dl /\ x.per = y.per)
=============================================================================
