------------------------------ MODULE DWDist ------------------------------
(* What a numeric option means: the values its successive uses take.        *)
(* A number is [n, u]: n in units of 1/q, u its suffix.  A distribution is   *)
(*   [k |-> kind, q, val, min, max, step, file, unit]                        *)
(* where val, min, max, step are sequences of at most one number, a file is  *)
(* a sequence of [ok, n] (ok: the line holds a number), and the step of a    *)
(* geometric sequence is the fraction [n, u |-> denominator].                *)
EXTENDS Integers, Sequences

Mult(u) ==
  CASE u \in {"", "b", "B", "us"} -> 1
    [] u \in {"k", "K", "kb", "kB", "KB", "ms"} -> 1000
    [] u \in {"m", "M", "mb", "MB", "s"} -> 1000000
    [] u \in {"g", "G", "gb", "GB"} -> 1000000000

Num(x) == IF x.u = "ns" THEN x.n \div 1000 ELSE x.n * Mult(x.u)

Has(x) == Len(x) > 0
Val(x) == Num(x[1])

\* within the bounds that are given
In(d, v) == (Has(d.min) => v >= Val(d.min)) /\ (Has(d.max) => v <= Val(d.max))

\* sequences stay where they hit a bound
Clamp(d, v) == IF Has(d.max) /\ v >= Val(d.max) THEN Val(d.max)
               ELSE IF Has(d.min) /\ v <= Val(d.min) THEN Val(d.min) ELSE v

AStep(d) == IF Has(d.step) THEN Val(d.step) ELSE d.q
GStep(d) == IF Has(d.step) THEN d.step[1] ELSE [n |-> 2, u |-> 1]

Succ(d, v) ==
  CASE d.k = "aseq" -> Clamp(d, v + AStep(d))
    [] d.k = "gseq" -> Clamp(d, (v * GStep(d).n) \div GStep(d).u)

\* without a start value a rising sequence starts at its minimum, a falling one at its maximum
Rising(d) == IF d.k = "aseq" THEN AStep(d) >= 0 ELSE GStep(d).n >= GStep(d).u
First(d) == IF Has(d.val) THEN Val(d.val) ELSE IF Rising(d) THEN Val(d.min) ELSE Val(d.max)

\* the values of a file that count, in order
Samples(d) ==
  LET RECURSIVE G(_)
      G(i) == IF i > Len(d.file) THEN <<>>
              ELSE LET v == Num([n |-> d.file[i].n, u |-> d.unit])
                   IN (IF d.file[i].ok /\ In(d, v) THEN <<v>> ELSE <<>>) \o G(i + 1)
  IN G(1)

\* the state of a source: where it stands
Begin(d) == IF d.k \in {"aseq", "gseq"} THEN First(d) ELSE 1

Skipped(d, s) == IF In(d, s) THEN s ELSE Succ(d, s)

\* w: what arrives, the value without its fraction
Whole(d, v) == v \div d.q
Gives(d, s, w) ==
  CASE d.k = "fixed" -> w = Whole(d, Val(d.val))
    [] d.k \in {"aseq", "gseq"} -> w = Whole(d, Skipped(d, s))
    [] d.k = "file" -> LET f == Samples(d) IN w = Whole(d, f[((s - 1) % Len(f)) + 1])
    [] OTHER -> (Has(d.min) => w >= Whole(d, Val(d.min))) /\ (Has(d.max) => w <= Whole(d, Val(d.max))) /\ w >= 0

After(d, s) ==
  CASE d.k \in {"aseq", "gseq"} -> Succ(d, Skipped(d, s))
    [] d.k = "file" -> s + 1
    [] OTHER -> s
=============================================================================
