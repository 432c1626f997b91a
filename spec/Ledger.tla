------------------------------- MODULE Ledger -------------------------------
(* Exact bookkeeping of finite precision numbers.  A number is <<hi, lo>> in    *)
(* units of the largest magnitude M around: x = M (hi / 2^25 + lo / 2^50).      *)
EXTENDS Integers, Sequences, TLC
Base == 33554432
LAbs(a) == IF a < 0 THEN -a ELSE a
SumTo(s, k, limb) == LET F[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE F[j - 1] + s[j][k][limb] IN F[Len(s)]
(* |sum of column k of rows - total| <= tol, tol in units of M / 2^50, tol < 2^28; the high limbs must agree up to carries *)
Within(dh, dl, tol) == LAbs(dh) <= 16 /\ LAbs(dh * Base + dl) <= tol
Adds(rows, total, k, tol) == Within(SumTo(rows, k, 1) - total[k][1], SumTo(rows, k, 2) - total[k][2], tol)
AddsUp(rows, total, tol) == \A k \in 1..Len(total) : Adds(rows, total, k, tol)
=============================================================================
