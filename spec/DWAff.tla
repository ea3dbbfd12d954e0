------------------------------- MODULE DWAff -------------------------------
(* Which core every thread of a node is pinned to.                          *)
(* A core list is a sequence of [a, b, s]: the cores a, a+s, ... up to b.    *)
EXTENDS Integers, Sequences, FiniteSets

Entry(e) == {c \in e.a..e.b : (c - e.a) % e.s = 0}

Cores(list) == UNION {Entry(list[i]) : i \in DOMAIN list}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

\* threads 0..nt-1 are the workers, thread nt is the one for storage
CoreOf(list, i) == LET s == Sorted(Cores(list)) IN s[(i % Len(s)) + 1]
=============================================================================
