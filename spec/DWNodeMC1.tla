---- MODULE DWNodeMC1 ----
(* forwards, retries, quorums, losses *)
EXTENDS DWNodeMC
F(op, t, to, rt) == [op |-> op, t |-> t, ps |-> 1, to |-> to, rt |-> rt, sk |-> 1, pr |-> "tcp"]
R(a) == [op |-> "R", n |-> 1, ack |-> a]
C(us) == [op |-> "C", us |-> us]
MCChains == << <<F("F", 1, 2, 1), R(1), R(1)>>,
               <<F("M", 1, 2, 0), F("M", 2, 2, 0), R(2), R(1)>>,
               <<F("F", 1, 0, 0), C(1), R(1), F("F", 2, 1, 0), R(1), R(1)>> >>
MCConns == {"a"}
MCCfg == [max |-> 10, period |-> 0, odirect |-> 0, slack |-> 0, grain |-> 0, nt |-> 1, deal |-> FALSE]
====
