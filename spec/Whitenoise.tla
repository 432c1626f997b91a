----------------------------- MODULE Whitenoise -----------------------------
(* Significance of components against white noise, in fixed point (1/16384).    *)
(* A component: integers x with scale 2^-s.  m: its peaks (at least one), Q the *)
(* sum of squares.  With E = Q/N and period P = N/m:  E P = Q/m, P/N = 1/m, so  *)
(*   a priori:      |ln(Q/m)| > k sqrt(2/m)                                     *)
(*   a posteriori:  ln E - u > -ln P + k sqrt(2/m),                             *)
(*                  u = -ln R + k sqrt(2/N) R / 2  the reference level, R its   *)
(*                  period; the reference itself: u > -ln R + k sqrt(2/m).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
WAbs(a) == IF a < 0 THEN -a ELSE a
U == 16384
(* ---- peaks: maximal flat stretches strictly above both neighbours, not touching the ends, not negative ---- *)
RECURSIVE RunEnd(_, _)
RunEnd(x, i) == IF i < Len(x) /\ x[i + 1] = x[i] THEN RunEnd(x, i + 1) ELSE i
IsPeak(x, i) == /\ i > 1 /\ x[i - 1] < x[i] /\ x[i] >= 0
                /\ LET j == RunEnd(x, i) IN j < Len(x) /\ x[j + 1] < x[i]
Peaks(x) == Cardinality({i \in 1..Len(x) : IsPeak(x, i)})
M(x) == LET p == Peaks(x) IN IF p = 0 THEN 1 ELSE p
SqSum(x) == LET F[j \in 0..Len(x)] == IF j = 0 THEN 0 ELSE F[j - 1] + x[j] * x[j] IN F[Len(x)]
(* ---- natural logarithm of a positive integer below 2^30 ---- *)
RECURSIVE Bits(_), Norm(_, _), Frac(_, _)
Bits(v) == IF v < 2 THEN 0 ELSE 1 + Bits(v \div 2)
Norm(v, e) == IF v >= 2 * U THEN Norm(v \div 2, e) ELSE IF v < U THEN Norm(2 * v, e) ELSE v
Frac(f, w) == IF w = 0 THEN 0                                  \* binary digits of log2 by squaring
              ELSE LET g == (f * f) \div U IN IF g >= 2 * U THEN w + Frac(g \div 2, w \div 2) ELSE Frac(g, w \div 2)
Ln(v) == (Bits(v) * 22713) \div 2 + (Frac(Norm(v, 0), U \div 2) * 11357) \div U
Ln2 == 11357
RECURSIVE WRoot(_, _, _)
WRoot(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET h == (lo + hi) \div 2 IN IF h * h <= v THEN WRoot(v, h, hi) ELSE WRoot(v, lo, h)
Root(v) == WRoot(v, 0, 46340)
Band(k, m) == (k * Root(536870912 \div m)) \div 4096           \* k sqrt(2/m), k in 1/4096
LnQm(c) == Ln(SqSum(c.x)) - 2 * c.s * Ln2 - Ln(M(c.x))
Lift(k, n, mr) == (4 * ((k * (Root(8388608 * n) \div 4)) \div 1024)) \div mr     \* k sqrt(n/2)/mr
(* decided value minus bound; positive: significant *)
Prior(c, k) == WAbs(LnQm(c)) - Band(k, M(c.x))
Post(c, ref, k) == LET n == Len(c.x) IN LnQm(c) + Ln(n) - Ln(M(ref.x)) - Band(k, M(c.x)) - Lift(k, n, M(ref.x))
PostRef(ref, k) == Lift(k, Len(ref.x), M(ref.x)) - Band(k, M(ref.x))
Margin == 80
Verdict(v) == IF v > Margin THEN {1} ELSE IF v < -Margin THEN {0} ELSE {0, 1}
Quantile == [a10 |-> 515, a30 |-> 1578, a50 |-> 2763, a80 |-> 5249, a90 |-> 6737, a95 |-> 8028, a99 |-> 10551, a999 |-> 13478]
=============================================================================
