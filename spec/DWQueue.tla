----------------------------- MODULE DWQueue -----------------------------
(* The bounded double-ended queue: a sequence of <<key, data>> entries.    *)
(* Entries are added at the tail and taken away at either end.             *)
EXTENDS Integers, Sequences

VARIABLES q, cap

qvars == <<q, cap>>

New(c) ==
  /\ q' = <<>>
  /\ cap' = c

\* h: what the program handed back for the new entry, nothing when it refused
Enq(k, d, h) ==
  /\ UNCHANGED cap
  /\ IF Len(q) < cap THEN q' = Append(q, <<k, d>>) /\ h = <<k, d>>
                     ELSE q' = q /\ h = <<>>

DeqHead == q' = (IF q = <<>> THEN q ELSE Tail(q)) /\ UNCHANGED cap

DeqTail == q' = (IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)) /\ UNCHANGED cap

Drop == q' = <<>> /\ UNCHANGED cap

\* what can be seen of a queue
First(s) == IF s = <<>> THEN <<>> ELSE Head(s)
Last(s) == IF s = <<>> THEN <<>> ELSE s[Len(s)]
Looks(s, c, o) == o.n = Len(s) /\ o.cap = c /\ o.head = First(s) /\ o.tail = Last(s)
=============================================================================
