---------------------------- MODULE DWChain ----------------------------
(* Command chains: the "program" carried by a request.                    *)
(* A chain is a sequence of records, one per command:                     *)
(*   [op |-> "C", us]                      burn us microseconds of CPU    *)
(*   [op |-> "S", n, off, sync]            write n bytes to storage       *)
(*   [op |-> "L", n, off]                  read n bytes from storage      *)
(*   [op |-> "F", t, ps, to, rt, sk, pr]   forward to target t            *)
(*   [op |-> "M", ...]                     one target of a multi-forward  *)
(*   [op |-> "R", n, ack]                  reply with n bytes             *)
(* A forward (F, or a maximal run of M) opens a block that is closed by   *)
(* the matching R; what is between them is executed by the target.        *)
EXTENDS Integers, Sequences

IsFwd(c) == c.op \in {"F", "M"}

\* last position of the run of M that starts at p (p itself for F)
RECURSIVE RunEnd(_, _)
RunEnd(ch, p) ==
  IF ch[p].op = "M" /\ p < Len(ch) /\ ch[p + 1].op = "M" THEN RunEnd(ch, p + 1) ELSE p

\* position just after one step of the chain that starts at p with `depth`
\* blocks open: a plain command is one step, a forward block is one step
RECURSIVE StepEnd(_, _, _)
StepEnd(ch, p, depth) ==
  IF p > Len(ch) THEN p
  ELSE LET c == ch[p]
           q == IF IsFwd(c) THEN RunEnd(ch, p) ELSE p
           d == IF IsFwd(c) THEN depth + 1 ELSE IF c.op = "R" THEN depth - 1 ELSE depth
       IN IF d > 0 THEN StepEnd(ch, q + 1, d) ELSE q + 1

\* skip k steps
RECURSIVE Skip(_, _, _)
Skip(ch, p, k) ==
  IF k <= 0 \/ p > Len(ch) THEN p ELSE Skip(ch, StepEnd(ch, p, 0), k - 1)

\* position of the R that closes the block opened by the forward at p
RECURSIVE FirstReply(_, _)
FirstReply(ch, p) ==
  IF p > Len(ch) THEN 0
  ELSE IF ch[p].op = "R" THEN p ELSE FirstReply(ch, StepEnd(ch, p, 0))

MatchReply(ch, p) == FirstReply(ch, RunEnd(ch, p) + 1)

\* the chain a target of the forward at p has to execute
SubChain(ch, p) == SubSeq(ch, RunEnd(ch, p) + 1, MatchReply(ch, p))

\* acknowledgements the forward at p waits for
Quorum(ch, p) == LET a == ch[MatchReply(ch, p)].ack IN IF a < 1 THEN 1 ELSE a

Targets(ch, p) == p .. RunEnd(ch, p)

\* first command at or after p that is not plain CPU work, and that work
RECURSIVE NextStop(_, _)
NextStop(ch, p) == IF p > Len(ch) \/ ch[p].op # "C" THEN p ELSE NextStop(ch, p + 1)

RECURSIVE CpuFrom(_, _, _)
CpuFrom(ch, p, q) == IF p >= q THEN 0 ELSE ch[p].us + CpuFrom(ch, p + 1, q)
=========================================================================
