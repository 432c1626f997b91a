------------------------------ MODULE Timeline ------------------------------
(* The sample index as time axis in a number type: signed/unsigned integers of  *)
(* b bits hold 2^(b-1), 2^b indices, floats with m mantissa bits 2^(m+1) + 1.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pow2(n) == LET F[j \in 0..n] == IF j = 0 THEN 1 ELSE 2 * F[j - 1] IN F[n]
(* how many indices 0, 1, ... are told apart *)
Holds(ty) == CASE ty.k = "i" -> Pow2(ty.b - 1) [] ty.k = "u" -> Pow2(ty.b) [] ty.k = "f" -> Pow2(ty.b + 1) + 1
(* what the index j becomes in type ty: wrapped around, or rounded to even spacing of the exponent *)
RECURSIVE Ulp(_, _)
Ulp(j, m) == IF j < Pow2(m + 1) THEN 1 ELSE 2 * Ulp(j \div 2, m)
Cast(ty, j) ==
  CASE ty.k = "u" -> j % Pow2(ty.b)
    [] ty.k = "i" -> LET r == j % Pow2(ty.b) IN IF r >= Pow2(ty.b - 1) THEN r - Pow2(ty.b) ELSE r
    [] ty.k = "f" -> LET u == Ulp(j, ty.b)  f == (j \div u) * u  h == 2 * (j - f) IN
                     IF h < u \/ (h = u /\ (f \div u) % 2 = 0) THEN f ELSE f + u
(* the axis: in the type asked for if that holds it, otherwise in the smallest of the larger types that does *)
Pick(ty, n, bigger) == IF n <= Holds(ty) THEN ty
                       ELSE LET J == {j \in 1..Len(bigger) : n <= Holds(bigger[j])} IN bigger[CHOOSE j \in J : \A i \in J : j <= i]
Axis(ty, n) == [j \in 1..n |-> Cast(ty, j - 1)]
Index(n) == [j \in 1..n |-> j - 1]
=============================================================================
