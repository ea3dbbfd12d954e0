---- MODULE DWNodeMC2 ----
(* storage: operations in pieces, wrap-around, durability *)
EXTENDS DWNodeMC
R == [op |-> "R", n |-> 1, ack |-> 1]
S(n, off, sync) == [op |-> "S", n |-> n, off |-> off, sync |-> sync]
L(n, off) == [op |-> "L", n |-> n, off |-> off]
F(t, to) == [op |-> "F", t |-> t, ps |-> 1, to |-> to, rt |-> 0, sk |-> 1, pr |-> "tcp"]
MCChains == << <<S(4, -1, 1), L(3, -1), R>>,
               <<L(2, -1), S(3, -1, 0), F(1, 0), R, R>>,
               <<S(2, 1, 1), S(5, -1, 0), R>> >>
MCConns == {"a", "b"}
MCCfg == [max |-> 6, period |-> 0, odirect |-> 0, slack |-> 0, grain |-> 0, nt |-> 1, deal |-> FALSE]
====
