----------------------------- MODULE DWNodeMC -----------------------------
(* Small instances of DWNode, explored completely: what the properties ask   *)
(* of every execution, stated independently of the bookkeeping of DWNode,    *)
(* over a record of what was seen from outside.                              *)
EXTENDS DWNode

CONSTANTS
  Chains,     \* the requests that may arrive (a sequence of chains)
  MaxReqs,    \* how many of them
  Conns,      \* connections of clients
  Losses,     \* connections to targets lost
  Horizon,    \* latest instant
  Cfg,        \* configuration of the node
  Pieces,     \* a storage operation may take two calls
  Leave       \* clients may hang up

VARIABLES
  seen,       \* rid -> what happened to the request, see New
  answered,   \* forwarded messages whose answer arrived
  lost,       \* number of connections lost
  unsafe      \* writes since the last one that everything was made durable: set of <<rid, pc>>

mvars == <<vars, seen, answered, lost, unsafe>>

New(c, ch) == [c |-> c, ch |-> ch,
               ran |-> <<>>,       \* commands of the chain completed, in order: [p, how, at]
               msgs |-> Empty,     \* forwarded message -> [p: target's position, at]
               got |-> {},         \* answers to those that arrived: [f, at]
               since |-> now,      \* when it came to stand where it stands
               replies |-> <<>>]

MCInit ==
  /\ cfg = Cfg
  /\ now = 0 /\ conns = Empty /\ outs = Empty /\ reqs = Empty /\ fms = Empty /\ stale = {} /\ refused = {}
  /\ disk = [pos |-> 0, eof |-> 0, phys |-> 8, cur |-> 0, base |-> 0, at |-> 0, left |-> 0]
  /\ spent = [lo |-> 0, hi |-> 0, n |-> 0] /\ nxt = 1 /\ ending = FALSE
  /\ seen = Empty /\ answered = {} /\ lost = 0 /\ unsafe = {}

Keep == UNCHANGED <<seen, answered, lost, unsafe>>

\* what request i ran between two states
Ran(i, how) == [seen EXCEPT ![i].ran = Append(@, [p |-> reqs[i].pc, how |-> how, at |-> now]), ![i].since = now]

--------------------------------------------------------------------------
\* the environment
EnvAccept == \E c \in Conns \ DOMAIN conns : Accept(c) /\ Keep

EnvRequest ==
  /\ nxt <= MaxReqs
  /\ \E c \in DOMAIN conns, j \in DOMAIN Chains :
       /\ Recv(0, c, nxt % 2, Chains[j])
       /\ seen' = (nxt :> New(c, Chains[j])) @@ seen
       /\ UNCHANGED <<answered, lost, unsafe>>

EnvAnswer ==
  \E f \in DOMAIN fms \ answered :
    /\ outs[fms[f].k].up
    /\ Ack(f)
    /\ answered' = answered \cup {f}
    /\ LET i == fms[f].r IN
         seen' = IF i \notin DOMAIN reqs THEN seen
                 ELSE [seen EXCEPT ![i].got = @ \cup {[f |-> f, at |-> now]},
                                   ![i].ran = IF Counts(f) /\ reqs[i].left = 1
                                              THEN Append(@, [p |-> reqs[i].pc, how |-> "ok", at |-> now]) ELSE @,
                                   ![i].since = IF Counts(f) /\ reqs[i].left = 1 THEN now ELSE @]
    /\ UNCHANGED <<lost, unsafe>>

EnvHangup == Leave /\ \E c \in DOMAIN conns : conns[c].up /\ Hangup(c, TRUE) /\ Keep

EnvLose ==
  /\ lost < Losses
  /\ \E k \in DOMAIN outs : Drop(k, TRUE)
  /\ lost' = lost + 1
  /\ UNCHANGED <<seen, answered, unsafe>>

\* time passes only while the node has nothing to do
NodeQuiet == (AllIdle(FALSE) /\ \A i \in DOMAIN reqs : ~Due(i)) = TRUE
EnvTick == now < Horizon /\ NodeQuiet /\ Tick(now + 1) /\ Keep

--------------------------------------------------------------------------
\* the node
NodeReply ==
  \E i \in DOMAIN reqs :
    /\ reqs[i].st = "rep"
    /\ Reply(i, reqs[i].c, reqs[i].id, reqs[i].ch[reqs[i].pc].n, reqs[i].status)
    /\ seen' = [Ran(i, "reply") EXCEPT ![i].replies = Append(@, [status |-> reqs[i].status, at |-> now])]
    /\ UNCHANGED <<answered, lost, unsafe>>

Usable(t) == {k \in DOMAIN outs : outs[k].up /\ outs[k].t = t}

NodeOpen ==
  /\ \E i \in DOMAIN reqs : \E p \in reqs[i].pend :
       /\ Usable(reqs[i].ch[p].t) = {}
       /\ Open(Cardinality(DOMAIN outs) + 1, reqs[i].ch[p].t, reqs[i].ch[p].pr)
  /\ Keep

NodeForward ==
  \E i \in DOMAIN reqs : \E p \in reqs[i].pend \ reqs[i].lost : \E k \in Usable(reqs[i].ch[p].t) :
    LET f == Cardinality(DOMAIN fms) + 1 IN
    /\ Forward(i, p, f, k, reqs[i].ch[p].ps, SubChain(reqs[i].ch, reqs[i].pc), 0)
    /\ seen' = [seen EXCEPT ![i].msgs = (f :> [p |-> p, at |-> now]) @@ @]
    /\ UNCHANGED <<answered, lost, unsafe>>

\* a message that was queued goes out although nobody waits for it to be sent any more
NodeStale ==
  \E x \in stale : \E k \in Usable(x.t) :
    LET f == Cardinality(DOMAIN fms) + 1
        p == CHOOSE q \in DOMAIN seen[x.r].ch : LET c == seen[x.r].ch[q] IN IF IsFwd(c) THEN c.t = x.t /\ SubChain(seen[x.r].ch, q) = x.ch ELSE FALSE
    IN /\ ForwardStale(x, f, k, x.n, x.ch, 0)
       /\ seen' = [seen EXCEPT ![x.r].msgs = (f :> [p |-> p, at |-> now]) @@ @]
       /\ UNCHANGED <<answered, lost, unsafe>>

NodeExpire ==
  \E i \in DOMAIN reqs :
    /\ Expire(i)
    /\ seen' = IF reqs[i].rt = 0 THEN Ran(i, "late") ELSE seen
    /\ UNCHANGED <<answered, lost, unsafe>>

NodeDisk ==
  \E i \in DOMAIN reqs :
    /\ reqs[i].st \in {"st", "ld"}
    /\ LET r     == reqs[i]
           c     == r.ch[r.pc]
           left  == IF disk.cur = 0 THEN RoundUp(c.n) ELSE disk.left
           start == IF disk.cur # 0 THEN disk.at ELSE IF r.st = "st" THEN StoreStart(c) ELSE LoadStart(c)
           at    == IF r.st = "ld" /\ start >= disk.phys THEN 0 ELSE start
           room  == IF r.st = "ld" THEN Min(left, disk.phys - at) ELSE left
       IN \E n \in {room} \cup (IF Pieces /\ room > 1 THEN {1} ELSE {}) :
            /\ DiskCall(i, r.st, at, n)
            /\ seen' = IF n = left THEN Ran(i, IF r.st = "st" THEN "stored" ELSE "loaded") ELSE seen
            /\ unsafe' = IF r.st = "st" THEN unsafe \cup {<<i, r.pc>>} ELSE unsafe
            /\ UNCHANGED <<answered, lost>>

NodeSync ==
  /\ \E i \in DOMAIN reqs : reqs[i].st = "sync"
  /\ Fsync
  /\ unsafe' = {}
  /\ UNCHANGED <<seen, answered, lost>>

Node == NodeReply \/ NodeOpen \/ NodeForward \/ NodeStale \/ NodeExpire \/ NodeDisk \/ NodeSync
Env == EnvAccept \/ EnvRequest \/ EnvAnswer \/ EnvHangup \/ EnvLose \/ EnvTick

MCSpec == MCInit /\ [][Node \/ Env]_mvars
Serve == NodeReply \/ NodeOpen \/ NodeForward \/ NodeExpire \/ NodeDisk \/ NodeSync   \* what it must do
MCFair == MCSpec /\ WF_mvars(Serve) /\ WF_mvars(EnvTick) /\ WF_mvars(EnvAnswer)

--------------------------------------------------------------------------
\* The properties
TopLevel(ch) ==     \* where the steps of a chain start
  LET RECURSIVE G(_)
      G(p) == IF p > Len(ch) THEN {} ELSE {p} \cup G(StepEnd(ch, p, 0))
  IN G(1)
Visible(ch) == {p \in TopLevel(ch) : ch[p].op # "C"}
Positions(s) == {s[n].p : n \in DOMAIN s}

\* C01: one reply, the last thing that happens to a request, on a connection that is there
OneReply == \A i \in DOMAIN seen :
  /\ Len(seen[i].replies) <= 1
  /\ Len(seen[i].replies) = 1 => i \notin DOMAIN reqs
  /\ i \in DOMAIN reqs /\ ~reqs[i].gone => Len(seen[i].replies) = 0

\* C03: commands run in the order of the chain, and none is left out unless a forward failed in front of it
InOrder == \A i \in DOMAIN seen :
  LET s == seen[i] IN
  /\ \A m, n \in DOMAIN s.ran : m < n => s.ran[m].p < s.ran[n].p /\ s.ran[m].at <= s.ran[n].at
  /\ Positions(s.ran) \subseteq Visible(s.ch)
  /\ \A n \in DOMAIN s.ran : \A p \in Visible(s.ch) :
        p < s.ran[n].p /\ p \notin Positions(s.ran) => \E m \in DOMAIN s.ran : s.ran[m].how = "late" /\ s.ran[m].p < p

\* C05: a forward is over when as many answers to its own messages arrived as it asks for, not before
Quorums == \A i \in DOMAIN seen :
  LET s == seen[i] IN
  \A n \in DOMAIN s.ran : s.ran[n].how = "ok" =>
    Cardinality({g \in s.got : s.msgs[g.f].p \in Targets(s.ch, s.ran[n].p) /\ g.at <= s.ran[n].at}) >= Quorum(s.ch, s.ran[n].p)
Waiting == \A i \in DOMAIN reqs :
  LET s == seen[i] r == reqs[i] IN
  r.st = "fwd" => Cardinality({g \in s.got : s.msgs[g.f].p \in Targets(s.ch, r.pc)}) < Quorum(s.ch, r.pc)

\* C06: nothing waits beyond its timeout; a forward gives up after 1 + retries periods; status tells
Tries(s, p) == {m \in DOMAIN s.msgs : s.msgs[m].p = p}
Timeouts == \A i \in DOMAIN seen :
  LET s == seen[i] IN
  /\ \A p \in 1..Len(s.ch) : IsFwd(s.ch[p]) => Cardinality(Tries(s, p)) <= 1 + s.ch[p].rt
  /\ \A n \in DOMAIN s.ran : s.ran[n].how = "late" =>
       s.ran[n].at = (IF n = 1 THEN 0 ELSE s.ran[n - 1].at) + (1 + s.ch[s.ran[n].p].rt) * s.ch[s.ran[n].p].to
       \/ n = 1
  /\ \A m \in DOMAIN s.replies :
       s.replies[m].status = IF \E n \in DOMAIN s.ran : s.ran[n].how = "late" THEN -1 ELSE 0
Deadlines == \A i \in DOMAIN reqs :
  LET r == reqs[i] IN
  r.st = "fwd" /\ ~r.gone /\ r.ch[r.pc].to > 0 => now <= seen[i].since + (1 + r.ch[r.pc].rt) * r.ch[r.pc].to

\* C09: nothing behind a synchronous store happens before the store is durable
Durable == \A i \in DOMAIN seen : i \in DOMAIN reqs /\ ~reqs[i].gone =>
  \A p \in 1..Len(seen[i].ch) : (seen[i].ch[p].op = "S" /\ seen[i].ch[p].sync = 1 /\ <<i, p>> \in unsafe) => reqs[i].pc <= p
DurableReply == \A i \in DOMAIN seen : Len(seen[i].replies) > 0 =>
  \A p \in 1..Len(seen[i].ch) : seen[i].ch[p].op = "S" /\ seen[i].ch[p].sync = 1 => <<i, p>> \notin unsafe

\* C08: the file stays within its bounds, one operation at a time
Storage ==
  /\ disk.eof <= cfg.max /\ disk.eof <= disk.phys
  /\ disk.pos <= cfg.max + 8
  /\ disk.cur # 0 => disk.cur \in DOMAIN reqs /\ disk.left > 0

\* C10: what is reported as in progress is what came and is not over
Counted == Cardinality({i \in DOMAIN seen : i \in DOMAIN reqs /\ ~reqs[i].gone}) = ActiveReqs

\* C27: of a request whose client has left, only a storage operation that was handed over may remain, and
\* of one that was answered nothing; so with no clients the node is as it was at the start
NothingLeft ==
  /\ \A i \in DOMAIN reqs : conns[reqs[i].c].up \/ reqs[i].st \in {"st", "ld", "sync"}
  /\ \A i \in DOMAIN seen : Len(seen[i].replies) > 0 => i \notin DOMAIN reqs /\ \A f \in DOMAIN fms : fms[f].r = i => ~Counts(f)
  /\ (\A c \in DOMAIN conns : ~conns[c].up) => Live = {}

\* C01: with targets that answer sooner or later, every request of a client that stays is answered
Replied(i) == i \in DOMAIN seen /\ (Len(seen[i].replies) = 1 \/ ~conns[seen[i].c].up)
Answered == \A i \in 1..MaxReqs : (i \in DOMAIN seen) ~> Replied(i)
============================================================================
