------------------------------- MODULE DWAddr -------------------------------
(* What an address on a command line means.  An address is                  *)
(*   [pr, sep, host, port]: [tcp|udp:[//]][host][:port], port -1 when absent *)
EXTENDS Integers, Sequences, TLC

DefaultIp == "127.0.0.1"
DefaultPort == 7891

Text(a) == a.pr \o a.sep \o a.host \o (IF a.port < 0 THEN "" ELSE ":" \o ToString(a.port))

\* "udp::80" and nothing at all are not addresses, "udp:80" is not port 80 of the host udp
Wellformed(a) ==
  /\ (a.pr = "") = (a.sep = "")
  /\ a.sep = ":" /\ a.host = "" => a.port < 0
  /\ a.pr = "" /\ a.host = "" => a.port >= 0
  /\ a.pr = "" => a.host \notin {"tcp", "udp"}
  /\ Len(Text(a)) < 31

\* hosts: the names there are and what they stand for
Resolves(a, hosts) == a.host = "" \/ a.host \in DOMAIN hosts

Use(a, hosts) == [pr |-> IF a.pr = "" THEN "tcp" ELSE a.pr,
                  ip |-> IF a.host = "" THEN DefaultIp ELSE hosts[a.host],
                  port |-> IF a.port < 0 THEN DefaultPort ELSE a.port]
=============================================================================
