------------------------------ MODULE DWCli ------------------------------
(* What a sequence of command-line options means: the requests it makes.   *)
(* An option is one of                                                      *)
(*   [o |-> "C", v]  [o |-> "S", v, sync]  [o |-> "L", v]                   *)
(*   [o |-> "so", v] [o |-> "lo", v]       offsets of later stores, loads   *)
(*   [o |-> "F", ts, to, rt]               forward to the targets ts        *)
(*   [o |-> "R", v, nk]                    empty v: size not given,         *)
(*                                         nk = 0: acknowledgements not given *)
(*   [o |-> "s", k, sure]                  skip k steps, surely or maybe    *)
(*   [o |-> "-"]                           anything that is not a command   *)
(* A number is a sequence of values, taken in turn by successive requests.  *)
EXTENDS DWChain, FiniteSets

DefaultSize == <<512>>
Default == [op |-> "C", us |-> <<1000>>]

\* the request template: commands whose numbers are still sequences
RECURSIVE Targs(_, _, _)
Targs(o, op, i) ==
  IF i > Len(o.ts) THEN <<>>
  ELSE <<[op |-> op, t |-> o.ts[i].t, ps |-> DefaultSize, to |-> o.to, rt |-> o.rt, sk |-> 1, pr |-> o.ts[i].pr,
          first |-> i = 1]>> \o Targs(o, op, i + 1)

Closer(d) == [op |-> "R", n |-> d.n, ack |-> d.ack]

Min2(a, b) == IF a < b THEN a ELSE b

\* one option; st = [ch, open: forwards still open (innermost last), fin: the final reply, so, lo]
Apply(st, o) ==
  CASE o.o = "C"  -> [st EXCEPT !.ch = Append(@, [op |-> "C", us |-> o.v])]
    [] o.o = "S"  -> [st EXCEPT !.ch = Append(@, [op |-> "S", n |-> o.v, off |-> st.so, sync |-> o.sync])]
    [] o.o = "L"  -> [st EXCEPT !.ch = Append(@, [op |-> "L", n |-> o.v, off |-> st.lo])]
    [] o.o = "so" -> [st EXCEPT !.so = o.v]
    [] o.o = "lo" -> [st EXCEPT !.lo = o.v]
    [] o.o = "s"  -> [st EXCEPT !.ch = Append(@, [op |-> "P", k |-> o.k, sure |-> o.sure])]
    [] o.o = "F"  -> [st EXCEPT !.ch = @ \o Targs(o, IF Len(o.ts) > 1 THEN "M" ELSE "F", 1),
                                !.open = Append(@, [n |-> DefaultSize, ack |-> Len(o.ts)])]
    [] o.o = "R"  -> LET k == Len(st.open)
                         d == IF k > 0 THEN st.open[k] ELSE st.fin
                         a == IF o.nk = 0 THEN 1 ELSE o.nk
                         e == [n |-> IF Len(o.v) = 0 THEN d.n ELSE o.v, ack |-> Min2(a, d.ack)]
                     IN IF k > 0 THEN [st EXCEPT !.ch = Append(@, Closer(e)), !.open = SubSeq(@, 1, k - 1)]
                        ELSE [st EXCEPT !.fin = e]
    [] OTHER -> st

RECURSIVE Fold(_, _, _)
Fold(st, opts, i) == IF i > Len(opts) THEN st ELSE Fold(Apply(st, opts[i]), opts, i + 1)

Start == [ch |-> <<>>, open |-> <<>>, fin |-> [n |-> DefaultSize, ack |-> 1], so |-> <<-1>>, lo |-> <<-1>>]

\* what is still open is closed innermost first, then comes the final reply
Closers(st) == [i \in 1..Len(st.open) |-> Closer(st.open[Len(st.open) + 1 - i])] \o <<Closer(st.fin)>>

Template(opts) ==
  LET st == Fold(Start, opts, 1)
      ch == IF Len(st.ch) = 0 THEN <<Default>> ELSE st.ch
  IN ch \o Closers(st)

\* steps of a template, which knows where the targets of a forward start
RECURSIVE LastTarget(_, _)
LastTarget(ch, p) == IF p < Len(ch) /\ ch[p + 1].op = "M" /\ ~ch[p + 1].first THEN LastTarget(ch, p + 1) ELSE p

RECURSIVE PastStep(_, _, _)
PastStep(ch, p, depth) ==
  IF p > Len(ch) THEN p
  ELSE LET c == ch[p]
           q == IF IsFwd(c) THEN LastTarget(ch, p) ELSE p
           d == IF IsFwd(c) THEN depth + 1 ELSE IF c.op = "R" THEN depth - 1 ELSE depth
       IN IF d > 0 THEN PastStep(ch, q + 1, d) ELSE q + 1

\* a skip never goes beyond the reply of the block it is in
RECURSIVE SkipIn(_, _, _)
SkipIn(ch, p, k) == IF k = 0 \/ p > Len(ch) \/ ch[p].op = "R" THEN p ELSE SkipIn(ch, PastStep(ch, p, 0), k - 1)

\* the commands a request may contain: one choice for every skip that is not sure
RECURSIVE Outcomes(_, _)
Outcomes(ch, p) ==
  IF p > Len(ch) THEN {<<>>}
  ELSE IF ch[p].op = "P"
       THEN Outcomes(ch, SkipIn(ch, p + 1, ch[p].k)) \cup (IF ch[p].sure THEN {} ELSE Outcomes(ch, p + 1))
       ELSE {<<ch[p]>> \o x : x \in Outcomes(ch, p + 1)}

--------------------------------------------------------------------------
\* n-th sample (from 1) of a number: the last value stays
Nth(v, n) == v[Min2(n, Len(v))]

Concrete(c, n) ==
  CASE c.op = "C" -> [op |-> "C", us |-> Nth(c.us, n)]
    [] c.op = "S" -> [op |-> "S", n |-> Nth(c.n, n), off |-> Nth(c.off, n), sync |-> c.sync]
    [] c.op = "L" -> [op |-> "L", n |-> Nth(c.n, n), off |-> Nth(c.off, n)]
    [] IsFwd(c)   -> [op |-> c.op, t |-> c.t, ps |-> Nth(c.ps, n), to |-> c.to, rt |-> c.rt, sk |-> c.sk, pr |-> c.pr]
    [] c.op = "R" -> [op |-> "R", n |-> Nth(c.n, n), ack |-> c.ack]

Request(x, n) == [i \in 1..Len(x) |-> Concrete(x[i], n)]

\* bytes on the wire
RECURSIVE Bytes(_, _, _)
Bytes(sz, ch, i) == IF i > Len(ch) THEN sz.hdr + sz.cmd ELSE sz.cmd + sz[ch[i].op] + Bytes(sz, ch, i + 1)

Max2(a, b) == IF a > b THEN a ELSE b

--------------------------------------------------------------------------
\* A node takes adjacent targets for those of one forward, so that the commands of a
\* forward to several targets must not start with another one.
Readable(x) == \A i \in 1..(Len(x) - 1) : x[i].op = "M" /\ x[i + 1].op = "M" => ~x[i + 1].first
===========================================================================
