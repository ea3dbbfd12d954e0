---------------------------- MODULE DWSystem ----------------------------
(* Clients and nodes together: what the command lines of the clients make *)
(* the nodes do.  Every node may serve clients and other nodes at the      *)
(* same time; connections deliver messages in order; nothing fails.        *)
EXTENDS DWCli, TLC

VARIABLES
  acts,    \* what is being executed: number -> [p: node, k, id: where to answer, ch, pc, pend, left, stage, fid: id of its messages, since: when it got there, due: work in front of it]
  net,     \* connections: name -> [fr, to: processes, there, back: messages under way]
  fms,     \* forwarded messages not answered yet: <<connection, id>> -> sequence of [a: who waits, stage]
  late,    \* messages of forwards that already had enough answers, still to go out
  work,    \* what the requests have had every node do so far: node -> [us, n: CPU, its commands, st, ld: bytes stored, loaded]
  seen,    \* bytes every node was seen to store and load
  asked,   \* requests of every client not answered yet: client -> set of <<connection, id>>
  done,    \* answered ones that are not reported yet: client -> sequence of ids
  count,   \* requests sent by every client
  nxt

vars == <<acts, net, fms, late, work, seen, asked, done, count, nxt>>

Nothing == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* the work of a node alone, up to the next command that concerns somebody else
None == [us |-> 0, n |-> 0, st |-> 0, ld |-> 0]
Sum(v, w) == [us |-> v.us + w.us, n |-> v.n + w.n, st |-> v.st + w.st, ld |-> v.ld + w.ld]
Of(f, p) == IF p \in DOMAIN f THEN f[p] ELSE None

RECURSIVE Alone(_, _, _)
Alone(ch, p, v) ==
  LET c == ch[p]
  IN CASE c.op = "C" -> Alone(ch, p + 1, Sum(v, [None EXCEPT !.us = c.us, !.n = 1]))
       [] c.op = "S" -> Alone(ch, p + 1, Sum(v, [None EXCEPT !.st = c.n]))
       [] c.op = "L" -> Alone(ch, p + 1, Sum(v, [None EXCEPT !.ld = c.n]))
       [] OTHER -> [at |-> p, due |-> v]

\* stand in front of that command
Stand(a, p) ==
  LET q == Alone(a.ch, p, None)
      b == [a EXCEPT !.pc = q.at, !.stage = @ + 1, !.due = q.due, !.pend = {}, !.left = 0, !.fid = -1, !.since = nxt]
  IN IF IsFwd(a.ch[q.at]) THEN [b EXCEPT !.pend = Targets(a.ch, q.at), !.left = Quorum(a.ch, q.at)] ELSE b

\* when the command is carried out the work in front of it has been done
Paid(a) ==
  LET w == Sum(Of(work, a.p), a.due)
  IN /\ w.st <= Of(seen, a.p).st /\ w.ld <= Of(seen, a.p).ld
     /\ work' = (a.p :> w) @@ work

Op(a) == a.ch[a.pc].op

----------------------------------------------------------------------------
Open(k, fr, to) ==
  /\ k \notin DOMAIN net
  /\ net' = (k :> [fr |-> fr, to |-> to, there |-> <<>>, back |-> <<>>]) @@ net
  /\ UNCHANGED <<acts, fms, late, work, seen, asked, done, count, nxt>>

\* client c sends a request, which its command line has to mean
Ask(c, k, id, ch) ==
  /\ net[k].fr = c
  /\ <<k, id>> \notin asked[c]
  /\ asked' = [asked EXCEPT ![c] = @ \cup {<<k, id>>}]
  /\ count' = [count EXCEPT ![c] = @ + 1]
  /\ net' = [net EXCEPT ![k].there = Append(@, [id |-> id, ch |-> ch])]
  /\ UNCHANGED <<acts, fms, late, work, seen, done, nxt>>

\* node p takes a message from a connection and starts to work on it
Take(p, k, id, ch) ==
  /\ net[k].to = p /\ Len(net[k].there) > 0
  /\ Head(net[k].there) = [id |-> id, ch |-> ch]
  /\ net' = [net EXCEPT ![k].there = Tail(@)]
  /\ LET a == [p |-> p, k |-> k, id |-> id, ch |-> ch, pc |-> 1, stage |-> 0, pend |-> {}, left |-> 0, fid |-> -1, since |-> nxt, due |-> None]
     IN acts' = (nxt :> Stand(a, 1)) @@ acts
  /\ nxt' = nxt + 1
  /\ UNCHANGED <<fms, late, work, seen, asked, done, count>>

\* node p stores or loads
Disk(p, kind, n) ==
  /\ n > 0
  /\ seen' = (p :> Sum(Of(seen, p), IF kind = "S" THEN [None EXCEPT !.st = n] ELSE [None EXCEPT !.ld = n])) @@ seen
  /\ UNCHANGED <<acts, net, fms, late, work, asked, done, count, nxt>>

\* the same target may be listed more than once
Wait(k, id) == IF <<k, id>> \in DOMAIN fms THEN fms[<<k, id>>] ELSE <<>>

\* i sends the part for its j-th command's target over connection k
Pass(i, j, k, id, ch, n) ==
  LET a == acts[i]
  IN /\ j \in a.pend
     /\ net[k].fr = a.p /\ net[k].to = a.ch[j].t
     /\ ch = SubChain(a.ch, a.pc) /\ n = a.ch[j].ps
     \* the messages of one forward have an id of their own
     /\ IF a.fid >= 0 THEN id = a.fid ELSE \A m \in DOMAIN acts : acts[m].p = a.p => acts[m].fid # id
     /\ net' = [net EXCEPT ![k].there = Append(@, [id |-> id, ch |-> ch])]
     /\ fms' = (<<k, id>> :> Append(Wait(k, id), [a |-> i, stage |-> a.stage])) @@ fms
     /\ Paid(a)
     /\ acts' = [acts EXCEPT ![i].pend = @ \ {j}, ![i].fid = id, ![i].due = None]
     /\ UNCHANGED <<late, seen, asked, done, count, nxt>>

PassLate(x, k, id, ch, n) ==
  /\ net[k].fr = x.p /\ net[k].to = x.t /\ ch = x.ch /\ n = x.n /\ id = x.fid
  /\ late' = late \ {x}
  /\ net' = [net EXCEPT ![k].there = Append(@, [id |-> id, ch |-> ch])]
  /\ fms' = (<<k, id>> :> Append(Wait(k, id), [a |-> x.a, stage |-> x.stage])) @@ fms
  /\ UNCHANGED <<acts, work, seen, asked, done, count, nxt>>

\* an answer comes back to node p
Back(p, k, id, st) ==
  /\ net[k].fr = p /\ Len(net[k].back) > 0
  /\ Head(net[k].back) = [id |-> id, st |-> st]
  /\ Len(Wait(k, id)) > 0
  /\ net' = [net EXCEPT ![k].back = Tail(@)]
  /\ fms' = IF Len(Wait(k, id)) = 1 THEN Drop(fms, <<k, id>>) ELSE [fms EXCEPT ![<<k, id>>] = Tail(@)]
  /\ LET f == Head(Wait(k, id)) IN
     IF ~(f.a \in DOMAIN acts /\ acts[f.a].stage = f.stage) THEN UNCHANGED <<acts, late, nxt>>     \* enough had come before
     ELSE LET a == acts[f.a] IN
          IF a.left > 1 THEN acts' = [acts EXCEPT ![f.a].left = @ - 1] /\ UNCHANGED <<late, nxt>>
          ELSE    /\ nxt' = nxt + 1
                  /\ acts' = [acts EXCEPT ![f.a] = Stand(a, Skip(a.ch, a.pc, 1))]
                  /\ late' = late \cup {[a |-> f.a, j |-> j, fid |-> a.fid, stage |-> a.stage, p |-> a.p, t |-> a.ch[j].t, n |-> a.ch[j].ps,
                                         ch |-> SubChain(a.ch, a.pc)] : j \in a.pend}
  /\ UNCHANGED <<work, seen, asked, done, count>>

\* i is through with everything in front of its reply
Answer(i, k, id, n, st) ==
  LET a == acts[i]
  IN /\ Op(a) = "R" /\ a.k = k /\ a.id = id /\ a.ch[a.pc].n = n /\ st = 0
     /\ net' = [net EXCEPT ![k].back = Append(@, [id |-> id, st |-> st])]
     /\ Paid(a)
     /\ acts' = Drop(acts, i)
     /\ UNCHANGED <<fms, late, seen, asked, done, count, nxt>>

\* the answer reaches the client, which reports it
Got(c, k, id, st) ==
  /\ net[k].fr = c /\ Len(net[k].back) > 0 /\ Head(net[k].back) = [id |-> id, st |-> st]
  /\ <<k, id>> \in asked[c]
  /\ net' = [net EXCEPT ![k].back = Tail(@)]
  /\ asked' = [asked EXCEPT ![c] = @ \ {<<k, id>>}]
  /\ done' = [done EXCEPT ![c] = Append(@, id)]
  /\ UNCHANGED <<acts, fms, late, work, seen, count, nxt>>

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Line(c, id) ==
  /\ \E i \in 1..Len(done[c]) : done[c][i] = id
  /\ LET i == CHOOSE i \in 1..Len(done[c]) : done[c][i] = id
     IN done' = [done EXCEPT ![c] = RemoveAt(@, i)]
  /\ UNCHANGED <<acts, net, fms, late, work, seen, asked, count, nxt>>

\* when everything has come to rest nothing is left over
AtRest ==
  /\ DOMAIN acts = {} /\ DOMAIN fms = {} /\ late = {}
  /\ \A k \in DOMAIN net : Len(net[k].there) = 0 /\ Len(net[k].back) = 0
  /\ \A p \in DOMAIN work \cup DOMAIN seen : Of(work, p).st = Of(seen, p).st /\ Of(work, p).ld = Of(seen, p).ld
=========================================================================
