----------------------------- MODULE DWNodeGen -----------------------------
(* Behaviours of the environment of a node, generated from DWNodeMC: every   *)
(* sequence of up to a given number of steps that makes sense in a state the *)
(* node can be in.  They are replayed into the real program.                 *)
(* The node is always ahead: it does all it can before the environment goes  *)
(* on, so a sequence does not depend on the order of its own steps.          *)
EXTENDS DWNodeMC, Json, IOUtils

Given == JsonDeserialize(IOEnv.DW_GEN)      \* [chains, conns, reqs, len, acts, cfg]

GChains == Given.chains
GConns == 1..Given.conns
GReqs == Given.reqs
GCfg == Given.cfg

VARIABLES
  script,     \* the steps so far
  credit      \* storage calls the disk will still answer (-1: no limit)

gvars == <<mvars, script, credit>>

May(a) == \E i \in DOMAIN Given.acts : Given.acts[i] = a
Did(x) == script' = Append(script, x)

GInit == MCInit /\ script = <<>> /\ credit = -1

DiskUp == credit # 0 /\ NodeDisk /\ credit' = (IF credit > 0 THEN credit - 1 ELSE credit)
SyncUp == credit # 0 /\ NodeSync /\ cfg.period = 0 /\ credit' = (IF credit > 0 THEN credit - 1 ELSE credit)

NodeFirst ==
  \/ (NodeReply \/ NodeOpen \/ NodeForward \/ NodeExpire) /\ UNCHANGED credit
  \/ DiskUp
  \/ SyncUp

GNode == NodeFirst /\ UNCHANGED script

Pending == {f \in DOMAIN fms \ answered : outs[fms[f].k].up}
Rank(f, S) == Cardinality({g \in S : g < f})

\* first connections in order, so that names do not matter
GConnect == LET n == Cardinality(DOMAIN conns) + 1
            IN n \in GConns /\ Accept(n) /\ Keep /\ Did([a |-> "connect"]) /\ UNCHANGED credit

GRequest ==
  /\ nxt <= GReqs
  /\ \E c \in DOMAIN conns, j \in DOMAIN GChains :
       /\ Recv(0, c, nxt % 2, GChains[j])
       /\ seen' = (nxt :> New(c, GChains[j])) @@ seen
       /\ UNCHANGED <<answered, lost, unsafe, credit>>
       /\ Did([a |-> "request", c |-> c, j |-> j])

GAnswer ==
  /\ Cardinality(Pending) > 0
  /\ \E f \in Pending :
       /\ Ack(f)
       /\ answered' = answered \cup {f}
       /\ UNCHANGED <<seen, lost, unsafe, credit>>
       /\ Did([a |-> "answer", f |-> Rank(f, Pending)])

GClose == \E c \in DOMAIN conns : conns[c].up /\ Hangup(c, TRUE) /\ Keep /\ UNCHANGED credit /\ Did([a |-> "close", c |-> c])

GLose == \E k \in DOMAIN outs : outs[k].up /\ Drop(k, TRUE) /\ Keep /\ UNCHANGED credit /\ Did([a |-> "lose", t |-> outs[k].t])

\* time matters only when something is timed
GTick == /\ \E i \in DOMAIN reqs : ~reqs[i].gone /\ ((reqs[i].st = "fwd" /\ reqs[i].dl < Inf) \/ reqs[i].st = "sync")
         /\ Tick(now + 1) /\ Keep /\ UNCHANGED credit /\ Did([a |-> "tick"])

GGate == /\ credit # 0 /\ credit' = 0 /\ UNCHANGED mvars /\ Did([a |-> "gate"])
GGrant == /\ credit = 0 /\ (\E i \in DOMAIN reqs : reqs[i].st \in {"st", "ld", "sync"})
          /\ credit' \in {1, -1} /\ UNCHANGED mvars /\ Did([a |-> "grant", n |-> credit'])

\* when a period is set, the node makes everything durable as it passes
GPeriod == /\ cfg.period > 0
           /\ \E i \in DOMAIN reqs : reqs[i].st = "sync" /\ reqs[i].dl <= now
           /\ NodeSync /\ UNCHANGED <<script, credit>>

GEnv ==
  \/ May("connect") /\ GConnect
  \/ GRequest
  \/ May("answer") /\ GAnswer
  \/ May("close") /\ GClose
  \/ May("lose") /\ GLose
  \/ May("tick") /\ GTick
  \/ May("gate") /\ (GGate \/ GGrant)

GNext == IF ENABLED GNode THEN GNode
         ELSE IF ENABLED GPeriod THEN GPeriod
         ELSE Len(script) < Given.len /\ GEnv

GSpec == GInit /\ [][GNext]_gvars

Busy == ENABLED GNode \/ ENABLED GPeriod

\* one line per sequence that the node has come to rest after
Emit == (Len(script) = Given.len /\ ~Busy) => PrintT(<<"SCRIPT", ToJson(script)>>)
View == IF Busy THEN <<gvars>> ELSE <<script>>
============================================================================
