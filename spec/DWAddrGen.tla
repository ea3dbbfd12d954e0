----------------------------- MODULE DWAddrGen -----------------------------
(* Every well-formed address made of given hosts and ports.                 *)
(* DW_GEN: {hosts: {name: ip}, unknown: [name], ports: [n]}                   *)
EXTENDS DWAddr, FiniteSets, Json, IOUtils

Given == JsonDeserialize(IOEnv.DW_GEN)
Range(s) == {s[i] : i \in DOMAIN s}
Hosts == {""} \cup DOMAIN Given.hosts \cup Range(Given.unknown)
Addrs == {a \in [pr : {"", "tcp", "udp"}, sep : {"", ":", "://"}, host : Hosts, port : {-1} \cup Range(Given.ports)] : Wellformed(a)}

VARIABLE a

Init == a \in Addrs
Next == UNCHANGED a
Spec == Init /\ [][Next]_a

Emit == PrintT(<<"SCRIPT", ToJson([a |-> a, text |-> Text(a)])>>)

\* no text has two meanings
Clear == \A b \in Addrs : (Text(b) = Text(a) /\ Resolves(a, Given.hosts) /\ Resolves(b, Given.hosts)) =>
            Use(a, Given.hosts) = Use(b, Given.hosts)
==========================================================================
