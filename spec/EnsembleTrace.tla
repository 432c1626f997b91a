---------------------------- MODULE EnsembleTrace ----------------------------
(* C09.  r.trials: per trial, in order, [m: modes, tr: trend or nothing], every *)
(* component an integer row; r.got: the ensemble by order; ret, mean, std, rest *)
(* "options": what was asked for (-1: nothing) and what was done.               *)
(* in fixed point Q (stdok: few enough trials for the exact deviation test).     *)
EXTENDS EnsembleRules, Judge
Q == 64
If(c, s) == IF c THEN {} ELSE {s}
NAbs(a) == IF a < 0 THEN -a ELSE a
Col(g, i) == LET F[j \in 0..Len(g)] == IF j = 0 THEN 0 ELSE F[j - 1] + g[j][i] IN F[Len(g)]
Col2(g, i) == LET F[j \in 0..Len(g)] == IF j = 0 THEN 0 ELSE F[j - 1] + g[j][i] * g[j][i] IN F[Len(g)]
MeanOk(a, q, n) == Len(q) = Len(a) /\ \A k \in 1..Len(a) : Len(q[k]) = n /\ \A i \in 1..n : NAbs(q[k][i] * Len(a[k]) - Q * Col(a[k], i)) <= Len(a[k])
StdOk(a, q, n) == Len(q) = Len(a) /\ \A k \in 1..Len(a) : Len(q[k]) = n /\ \A i \in 1..n :
   LET c == Len(a[k])  v == c * Col2(a[k], i) - Col(a[k], i) * Col(a[k], i)
   IN q[k][i] >= 0 /\ NAbs(q[k][i] * q[k][i] * c * c - Q * Q * v) <= (2 * q[k][i] + 2) * c * c
(* documented defaults; width in 1/1000, the noise found in 1/100000 of the range *)
Trials(r) == IF r.trials < 0 THEN 100 ELSE r.trials
Width(r) == IF r.width < 0 THEN 50 ELSE r.width
OptBad(r) ==
  If(r.had = Trials(r), "number-of-trials")
  \cup If(NAbs(r.noise - 100 * Width(r)) <= 18 * Width(r), "noise-width")
  \cup If(r.same, "options-not-passed-on")
EnsBad(r) ==
  IF r.kind = "options" THEN OptBad(r)
  ELSE IF r.kind # "ens" THEN {r.kind}
  ELSE LET a == TLCEval(Aggregate(r.trials))  n == Len(r.s) IN
       If(r.keys, "orders-not-consecutive")
       \cup If(r.got = a, "wrong-members")
       \cup If(r.count = [k \in 1..Len(a) |-> Len(a[k])], "wrong-count")
       \cup If(MeanOk(a, r.ret, n), "returned-not-mean")
       \cup If(MeanOk(a, r.mean, n), "ensemble-mean")
       \cup If(~r.stdok \/ StdOk(a, r.std, n), "ensemble-std")
       \cup If(r.acc, "accessor-differs")
       \cup If(Len(r.rest) = n /\ \A i \in 1..n :
                 NAbs(r.rest[i] - Q * r.s[i] + (LET F[j \in 0..Len(r.ret)] == IF j = 0 THEN 0 ELSE F[j - 1] + r.ret[j][i] IN F[Len(r.ret)])) <= 2 + Len(r.ret), "remainder")
       \cup If(r.args, "time-or-limit-not-passed-on")
=============================================================================
