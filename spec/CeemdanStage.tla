---------------------------- MODULE CeemdanStage ----------------------------
(* One stage in numbers, for a linear trial decomposition: local mean P x with  *)
(* P x[i] = (x[i-1] + 2 x[i] + x[i+1]) / 4 (circular).  Fixed point throughout. *)
EXTENDS Integers, Sequences, TLC
QAbs(a) == IF a < 0 THEN -a ELSE a
Prv(i, n) == IF i = 1 THEN n ELSE i - 1
Nxt(i, n) == IF i = n THEN 1 ELSE i + 1
P4(x) == TLCEval([i \in 1..Len(x) |-> x[Prv(i, Len(x))] + 2 * x[i] + x[Nxt(i, Len(x))]])  \* 4 P x
SumX(x) == LET F[j \in 0..Len(x)] == IF j = 0 THEN 0 ELSE F[j - 1] + x[j] IN F[Len(x)]
SumXX(x) == LET F[j \in 0..Len(x)] == IF j = 0 THEN 0 ELSE F[j - 1] + x[j] * x[j] IN F[Len(x)]
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN Root(v, m, hi) ELSE Root(v, lo, m)
(* n * standard deviation, in the units of x *)
NStd(x) == Root(Len(x) * SumXX(x) - SumX(x) * SumX(x), 0, 46000)
(* noise: per trial its integer modes.  Mode k of trial t in 1/1024, normalised by the deviation of the first if asked *)
Mode(z, k, beta) == IF Len(z) < k THEN <<>>
                    ELSE LET s == NStd([i \in 1..Len(z[1]) |-> 64 * z[1][i]]) IN
                         TLCEval([i \in 1..Len(z[k]) |-> IF beta THEN (z[k][i] * 64 * 1024 * Len(z[k])) \div s ELSE 1024 * z[k][i]])
(* average over all trials, those without the mode counting as zero; in 1/1024 *)
Mean(noise, k, beta, n) ==
  LET R == TLCEval([t \in 1..Len(noise) |-> Mode(noise[t], k, beta)])
  IN TLCEval([i \in 1..n |-> LET F[t \in 0..Len(noise)] == IF t = 0 THEN 0 ELSE F[t - 1] + (IF R[t] = <<>> THEN 0 ELSE R[t][i]) IN F[Len(noise)] \div Len(noise)])
=============================================================================
