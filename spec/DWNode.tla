----------------------------- MODULE DWNode -----------------------------
(* A distwalk node as seen from outside: the connections it serves, the   *)
(* requests it is executing, the forwards it has outstanding, its storage *)
(* file and its clock.  One action per observable step (a message taken   *)
(* from or put on a connection, one storage system call, a clock tick).   *)
(* Between observable steps the node only burns CPU, so a request always  *)
(* stands in front of its next observable step.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, DWChain

CONSTANT Inf            \* later than every reachable instant

VARIABLES
  cfg,     \* [max, period, odirect, slack, grain, nt, deal]
  now,     \* virtual time (us)
  conns,   \* inbound connections: id -> [up |-> BOOLEAN, ord |-> how many came before, w |-> worker or -1]
  outs,    \* outbound connections: id -> [t |-> target, pr |-> protocol, up |-> BOOLEAN]
  reqs,    \* requests in progress: rid -> record
  fms,     \* forwarded messages: number -> [r, stage, k]
  stale,   \* messages to targets that nobody waits to be sent any more, but which
           \* may be queued on their connection already and still go out
  refused, \* targets that refused or closed a connection since the node was last idle
  disk,    \* storage file: [pos, eof, phys, cur, base, at, left]
  spent,   \* CPU already accounted for: at least lo, at most hi us, in n commands
  nxt,     \* next rid
  ending   \* the node was told to terminate

vars == <<cfg, now, conns, outs, reqs, fms, stale, refused, disk, spent, nxt, ending>>

Empty == [x \in {} |-> 0]

----------------------------------------------------------------------------
\* Standing in front of the next observable command.
\* st: "rep" reply due, "fwd" forwarding (pend = targets not sent to yet in
\* this attempt, lost = those of them whose message may be lost already),
\* "st"/"ld" storage operation due, "sync" written but not
\* yet durable, "end" ran off the chain (nothing left to do, never replied)
Settle(r, p) ==
  LET q    == NextStop(r.ch, p)
      need == [us |-> r.need.us + CpuFrom(r.ch, p, q), n |-> r.need.n + (q - p)]
      base == [r EXCEPT !.pc = q, !.need = need, !.stage = @ + 1, !.pend = {}, !.lost = {}, !.left = 0, !.dl = Inf]
  IN IF q > Len(r.ch) THEN [base EXCEPT !.st = "end"]
     ELSE LET c == r.ch[q] IN
       CASE c.op = "R" -> [base EXCEPT !.st = "rep"]
         [] c.op = "S" -> [base EXCEPT !.st = "st"]
         [] c.op = "L" -> [base EXCEPT !.st = "ld"]
         [] IsFwd(c)   -> [base EXCEPT !.st   = "fwd",
                                       !.pend = Targets(r.ch, q),
                                       !.left = Quorum(r.ch, q),
                                       !.rt   = c.rt,
                                       !.dl   = IF c.to > 0 THEN now + c.to ELSE Inf]

NewReq(c, id, ch) ==
  Settle([c |-> c, id |-> id, ch |-> ch, pc |-> 1, st |-> "", stage |-> 0, pend |-> {}, lost |-> {},
          left |-> 0, rt |-> 0, dl |-> Inf, status |-> 0, need |-> [us |-> 0, n |-> 0], gone |-> FALSE], 1)

\* the CPU work in front of an observable step has been done when it happens
Paid(r) == [r EXCEPT !.need = [us |-> 0, n |-> 0]]
Spend(must, may) == spent' = [lo |-> spent.lo + must.us, hi |-> spent.hi + may.us, n |-> spent.n + may.n]
Account(r) == Spend(r.need, r.need)
\* CPU work done by a set of requests and not yet accounted for
RECURSIVE SumNeed(_)
SumNeed(S) == IF S = {} THEN [us |-> 0, n |-> 0]
              ELSE LET i == CHOOSE i \in S : TRUE
                       t == SumNeed(S \ {i})
                   IN [us |-> reqs[i].need.us + t.us, n |-> reqs[i].need.n + t.n]

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* what request i leaves unsent when it stops waiting for it
Unsent(i) == LET r == reqs[i] IN
  {[r |-> i, stage |-> r.stage, try |-> r.rt, t |-> r.ch[p].t, pr |-> r.ch[p].pr, n |-> r.ch[p].ps, ch |-> SubChain(r.ch, r.pc)] :
     p \in r.pend}

----------------------------------------------------------------------------
\* Connections
Accept(c) ==
  /\ c \notin DOMAIN conns
  /\ conns' = (c :> [up |-> TRUE, ord |-> Cardinality(DOMAIN conns), w |-> -1]) @@ conns
  /\ UNCHANGED <<cfg, now, outs, reqs, fms, stale, disk, spent, nxt, ending, refused>>

\* a connection ends: what was requested over it is abandoned.  Storage
\* operations that were already handed over may still be carried out.
Hangup(c, byPeer) ==
  /\ (byPeer \/ ending) = TRUE    \* a running node never hangs up on a client
  /\ c \in DOMAIN conns /\ conns[c].up
  /\ conns' = [conns EXCEPT ![c].up = FALSE]
  /\ LET t == SumNeed({i \in DOMAIN reqs : reqs[i].c = c})
     IN Spend([us |-> 0], t)
  /\ reqs' = [i \in {i \in DOMAIN reqs : ~(reqs[i].c = c /\ reqs[i].st \in {"rep", "end", "fwd"})} |->
                 IF reqs[i].c = c THEN [Paid(reqs[i]) EXCEPT !.gone = TRUE] ELSE reqs[i]]
  /\ stale' = stale \cup UNION {Unsent(i) : i \in {i \in DOMAIN reqs : reqs[i].c = c}}
  /\ UNCHANGED <<cfg, now, outs, fms, disk, nxt, ending, refused>>

Open(k, t, pr) ==
  /\ outs' = (k :> [t |-> t, pr |-> pr, up |-> TRUE]) @@ outs
  /\ UNCHANGED <<cfg, now, conns, reqs, fms, stale, disk, spent, nxt, ending, refused>>

\* the node may give up an outbound connection by itself only when no
\* answer that still matters can arrive on it
Awaited(k) == \E f \in DOMAIN fms :
  /\ fms[f].k = k /\ fms[f].r \in DOMAIN reqs
  /\ LET r == reqs[fms[f].r] IN ~r.gone /\ r.st = "fwd" /\ r.stage = fms[f].stage

\* when the other end refuses or closes it, what was queued on it is lost
Drop(k, byPeer) ==
  /\ k \in DOMAIN outs /\ outs[k].up
  /\ IF byPeer \/ ending
     THEN refused' = refused \cup {[t |-> outs[k].t, pr |-> outs[k].pr]}
     ELSE ~Awaited(k) /\ UNCHANGED refused
  /\ outs' = [outs EXCEPT ![k].up = FALSE]
  /\ UNCHANGED <<cfg, now, conns, reqs, fms, stale, disk, spent, nxt, ending>>

----------------------------------------------------------------------------
\* Requests
\* Worker w handles connection c: the same one for all of its life and, when
\* connections are dealt out, every nt-th connection and no other goes to it.
Serves(w, c) ==
  IF conns[c].w # -1 THEN conns[c].w = w /\ UNCHANGED conns
  ELSE /\ (cfg.deal => \A d \in DOMAIN conns :
            conns[d].w # -1 => (conns[d].w = w <=> conns[d].ord % cfg.nt = conns[c].ord % cfg.nt)) = TRUE
       /\ conns' = [conns EXCEPT ![c].w = w]

Recv(w, c, id, ch) ==
  /\ c \in DOMAIN conns /\ conns[c].up
  /\ Serves(w, c)
  /\ reqs' = (nxt :> NewReq(c, id, ch)) @@ reqs
  /\ nxt' = nxt + 1
  /\ UNCHANGED <<cfg, now, outs, fms, stale, disk, spent, ending, refused>>

Reply(i, c, id, n, status) ==
  /\ i \in DOMAIN reqs
  /\ LET r == reqs[i] IN
       /\ r.st = "rep" /\ ~r.gone
       /\ r.c = c /\ conns[c].up
       /\ r.id = id /\ n = r.ch[r.pc].n /\ status = r.status
       /\ Account(r)
  /\ reqs' = Without(reqs, i)
  /\ UNCHANGED <<cfg, now, conns, outs, fms, stale, disk, nxt, ending, refused>>

\* message number f of the node to a target, over connection k
Forward(i, p, f, k, n, ch, status) ==
  /\ i \in DOMAIN reqs
  /\ LET r == reqs[i] IN
       /\ r.st = "fwd" /\ p \in r.pend
       /\ k \in DOMAIN outs /\ outs[k].up /\ outs[k].t = r.ch[p].t /\ outs[k].pr = r.ch[p].pr
       /\ n = r.ch[p].ps /\ ch = SubChain(r.ch, r.pc) /\ status = 0
       /\ Account(r)
       /\ reqs' = [reqs EXCEPT ![i] = [Paid(r) EXCEPT !.pend = @ \ {p}]]
       /\ fms' = (f :> [r |-> i, stage |-> r.stage, k |-> k]) @@ fms
  /\ UNCHANGED <<cfg, now, conns, outs, stale, disk, nxt, ending, refused>>

\* the same, when nobody waits for it any more
ForwardStale(x, f, k, n, ch, status) ==
  /\ x \in stale
  /\ k \in DOMAIN outs /\ outs[k].up /\ outs[k].t = x.t /\ outs[k].pr = x.pr
  /\ n = x.n /\ ch = x.ch /\ status = 0
  /\ stale' = stale \ {x}
  /\ fms' = (f :> [r |-> x.r, stage |-> x.stage, k |-> k]) @@ fms
  /\ UNCHANGED <<cfg, now, conns, outs, reqs, disk, spent, nxt, ending, refused>>

\* the answer to forwarded message f arrives: it counts if the request is
\* still waiting for that very forward, otherwise it changes nothing
Counts(f) ==
  /\ f \in DOMAIN fms
  /\ fms[f].r \in DOMAIN reqs
  /\ LET r == reqs[fms[f].r] IN ~r.gone /\ r.st = "fwd" /\ r.stage = fms[f].stage

Ack(f) ==
  /\ IF ~Counts(f) THEN UNCHANGED <<reqs, stale>>
     ELSE LET i == fms[f].r
              r == reqs[i]
          IN IF r.left > 1
             THEN reqs' = [reqs EXCEPT ![i].left = @ - 1] /\ UNCHANGED stale
             ELSE /\ reqs' = [reqs EXCEPT ![i] = Settle(r, Skip(r.ch, r.pc, 1))]
                  /\ stale' = stale \cup Unsent(i)
  /\ UNCHANGED <<cfg, now, conns, outs, fms, disk, spent, nxt, ending, refused>>

\* the timeout of a forward runs out
Due(i) == reqs[i].st = "fwd" /\ ~reqs[i].gone /\ now >= reqs[i].dl

Expire(i) ==
  /\ i \in DOMAIN reqs
  /\ LET r == reqs[i]
         c == r.ch[r.pc]
     IN /\ Due(i)
        /\ IF r.rt > 0
           THEN reqs' = [reqs EXCEPT ![i] = [r EXCEPT !.rt = @ - 1, !.pend = Targets(r.ch, r.pc), !.lost = {},
                                                      !.dl = now + c.to]]
           ELSE IF c.sk > 0
           THEN reqs' = [reqs EXCEPT ![i] = Settle([r EXCEPT !.status = -1], Skip(r.ch, r.pc, c.sk))]
           ELSE reqs' = Without(reqs, i)
        /\ stale' = stale \cup Unsent(i)
  /\ UNCHANGED <<cfg, now, conns, outs, fms, disk, spent, nxt, ending, refused>>

----------------------------------------------------------------------------
\* Storage.  One operation at a time; an operation may take several calls.
RoundUp(n) == IF cfg.odirect > 0 THEN ((n + cfg.odirect - 1) \div cfg.odirect) * cfg.odirect ELSE n

StoreStart(c) ==
  IF c.off # -1 THEN RoundUp(c.off)
  ELSE IF disk.pos + RoundUp(c.n) > cfg.max THEN 0 ELSE disk.pos

LoadStart(c) ==
  IF c.off # -1 THEN RoundUp(c.off)
  ELSE IF disk.pos + RoundUp(c.n) > disk.eof THEN 0 ELSE disk.pos

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* one call of storage operation of request i: n bytes at offset off
DiskCall(i, kind, off, n) ==
  /\ i \in DOMAIN reqs /\ n > 0
  /\ LET r     == reqs[i]
         c     == r.ch[r.pc]
         fresh == disk.cur = 0
         start == IF ~fresh THEN disk.at ELSE IF kind = "st" THEN StoreStart(c) ELSE LoadStart(c)
         left  == IF fresh THEN RoundUp(c.n) ELSE disk.left
         base  == IF fresh THEN start ELSE disk.base
         \* reading past the end of the file continues from its beginning
         at    == IF kind = "ld" /\ start >= disk.phys THEN 0 ELSE start
         done  == n = left
         pos   == base + RoundUp(c.n)
     IN /\ r.st = kind
        /\ IF fresh THEN TRUE ELSE disk.cur = i
        /\ off = at /\ n <= left
        /\ kind = "ld" => off + n <= disk.phys
        /\ Account(r)
        /\ IF ~done
           THEN /\ disk' = [disk EXCEPT !.cur = i, !.at = off + n, !.left = left - n, !.base = base,
                                        !.phys = IF kind = "st" THEN Max(@, off + n) ELSE @]
                /\ reqs' = [reqs EXCEPT ![i] = Paid(r)]
           ELSE /\ disk' = [disk EXCEPT !.cur = 0, !.at = 0, !.left = 0, !.base = 0, !.pos = pos,
                                        !.phys = IF kind = "st" THEN Max(@, off + n) ELSE @,
                                        !.eof = IF kind = "st" THEN Min(Max(@, pos), cfg.max) ELSE @]
                /\ reqs' = IF r.gone THEN Without(reqs, i)
                           ELSE IF kind = "st" /\ c.sync = 1
                           THEN [reqs EXCEPT ![i] = [Paid(r) EXCEPT !.st = "sync", !.dl = now + cfg.period]]
                           ELSE [reqs EXCEPT ![i] = Settle(Paid(r), r.pc + 1)]
  /\ UNCHANGED <<cfg, now, conns, outs, fms, stale, nxt, ending, refused>>

\* everything written so far is on stable storage
Fsync ==
  /\ reqs' = [i \in {i \in DOMAIN reqs : ~(reqs[i].st = "sync" /\ reqs[i].gone)} |->
                IF reqs[i].st = "sync" THEN Settle(reqs[i], reqs[i].pc + 1) ELSE reqs[i]]
  /\ UNCHANGED <<cfg, now, conns, outs, fms, stale, disk, spent, nxt, ending, refused>>

----------------------------------------------------------------------------
\* what may have been queued on the lost connections is lost
Lose ==
  /\ reqs' = [i \in DOMAIN reqs |->
                LET r == reqs[i]
                IN [r EXCEPT !.lost = @ \cup {p \in r.pend : [t |-> r.ch[p].t, pr |-> r.ch[p].pr] \in refused}]]
  /\ refused' = {}

Tick(t) ==
  /\ t >= now
  /\ now' = t
  /\ Lose
  /\ UNCHANGED <<cfg, conns, outs, fms, stale, disk, spent, nxt, ending>>

\* A worker's wait is interrupted (the node was stopped and continued, or a
\* debugger attached to it): that changes nothing.
Interrupted == UNCHANGED vars

\* Elsewhere n requests come and are brought to their end, whatever it is
\* (an answer, a failure, or their client leaving), while everything that
\* is under way here rests.  `right` of them go as they should, `wrong`
\* otherwise.  Nothing of them remains: see NothingLeft in DWNodeMC.
Elsewhere(n, right, wrong) ==
  /\ right = n /\ wrong = 0
  /\ UNCHANGED vars

\* Elsewhere requests are under way, and nothing is known of how far they are.
Underway == UNCHANGED vars

\* Termination: on a signal the node stops wherever it is and exits with 0
Terminate ==
  /\ ending' = TRUE
  /\ UNCHANGED <<cfg, now, conns, outs, reqs, fms, stale, disk, spent, nxt, refused>>

Exit(code) == ending /\ code = 0 /\ UNCHANGED vars

----------------------------------------------------------------------------
\* What must hold when the node is idle and has consumed all its input:
\* nothing observable is left undone.
Live == {i \in DOMAIN reqs : ~reqs[i].gone}

Idle(i, gated) ==
  LET r == reqs[i] IN
  CASE r.st = "rep"  -> FALSE
    [] r.st = "fwd"  -> /\ \A p \in r.pend : p \in r.lost \/ [t |-> r.ch[p].t, pr |-> r.ch[p].pr] \in refused
                        /\ now < r.dl + cfg.slack
    [] r.st = "sync" -> gated \/ (cfg.period > 0 /\ now < r.dl + cfg.slack)
    [] r.st \in {"st", "ld"} -> gated
    [] OTHER -> TRUE

AllIdle(gated) == \A i \in Live : Idle(i, gated)

\* the CPU burnt is what the requests asked for, up to `grain` per command
CpuExact(cpu, grain) ==
  LET t == SumNeed(Live)
  IN /\ cpu >= spent.lo + t.us
     /\ cpu <= spent.hi + t.us + grain * (spent.n + t.n)

ActiveReqs == Cardinality(Live)
ActiveConns == Cardinality({c \in DOMAIN conns : conns[c].up}) + Cardinality({k \in DOMAIN outs : outs[k].up})
=========================================================================
