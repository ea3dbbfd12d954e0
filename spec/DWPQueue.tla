----------------------------- MODULE DWPQueue -----------------------------
(* The priority queue of timeouts: entries with a key, named by handles.    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  live,   \* handle -> <<key, data>>
  top,    \* the handle at the head, 0 when empty
  pcap

pvars == <<live, top, pcap>>

PNew(c) ==
  /\ live' = <<>>
  /\ pcap' = c

Ins(h, k, d) ==
  /\ h \notin DOMAIN live
  /\ Cardinality(DOMAIN live) < pcap
  /\ live' = [x \in DOMAIN live \cup {h} |-> IF x = h THEN <<k, d>> ELSE live[x]]
  /\ UNCHANGED pcap

Without(h) == [x \in DOMAIN live \ {h} |-> live[x]]

Rm(h) ==
  /\ h \in DOMAIN live
  /\ live' = Without(h)
  /\ UNCHANGED pcap

\* takes away the entry at the head, the one that was seen there before
Pop ==
  /\ top \in DOMAIN live
  /\ live' = Without(top)
  /\ UNCHANGED pcap

\* a head is any entry with the smallest key
Heads(f) == IF DOMAIN f = {} THEN {0} ELSE {h \in DOMAIN f : \A x \in DOMAIN f : f[h][1] <= f[x][1]}

\* what can be seen: size, the head with its key and data, and (sometimes) what every handle names
PLooks(f, c, o) ==
  /\ o.n = Cardinality(DOMAIN f)
  /\ o.cap = c
  /\ o.top \in Heads(f)
  /\ o.tk = (IF o.top = 0 THEN <<>> ELSE f[o.top])
  /\ o.full => /\ Len(o.all) = Cardinality(DOMAIN f)
               /\ \A i \in DOMAIN o.all : f[o.all[i][1]] = <<o.all[i][2], o.all[i][3]>>
=============================================================================
