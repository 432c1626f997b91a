------------------------------- MODULE Compact -------------------------------
(* The compact schemes as the linear equations they solve.  v: data, y: result  *)
(* (derivative times step, or filtered data).  Each operator is left minus      *)
(* right side of equation i, cleared of denominators; U scales v to the units   *)
(* of y.                                                                        *)
EXTENDS Integers, Sequences, TLC
CAbs(a) == IF a < 0 THEN -a ELSE a
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
Neg(s) == [j \in 1..Len(s) |-> -s[j]]
(* ---- derivative: 1/3 y[i-1] + y[i] + 1/3 y[i+1] = 7/9 (v[i+1] - v[i-1]) + 1/36 (v[i+2] - v[i-2]), and two border equations ---- *)
D1(v, y, u) == 60 * (y[1] + 5 * y[2]) - u * (-197 * v[1] - 25 * v[2] + 300 * v[3] - 100 * v[4] + 25 * v[5] - 3 * v[6])
D2(v, y, u) == 132 * y[2] + 24 * (y[1] + y[3]) - u * (-80 * v[1] - 35 * v[2] + 136 * v[3] - 28 * v[4] + 8 * v[5] - v[6])
DI(v, y, i, u) == 12 * y[i - 1] + 36 * y[i] + 12 * y[i + 1] - u * (28 * (v[i + 1] - v[i - 1]) + v[i + 2] - v[i - 2])
DRes(v, y, i, u) == LET n == Len(v) IN
  CASE i = 1 -> D1(v, y, u) [] i = 2 -> D2(v, y, u)
    [] i = n -> D1(Rev(v), Neg(Rev(y)), u) [] i = n - 1 -> D2(Rev(v), Neg(Rev(y)), u)
    [] OTHER -> DI(v, y, i, u)
(* ---- filter of strength p/8 ---- *)
F1(v, y, u) == 16 * y[1] - u * (15 * v[1] + 4 * v[2] - 6 * v[3] + 4 * v[4] - v[5])
F2(v, y, u) == 16 * y[2] - u * (v[1] + 12 * v[2] + 6 * v[3] - 4 * v[4] + v[5])
F3(v, y, u) == 16 * y[3] - u * (-v[1] + 4 * v[2] + 10 * v[3] + 4 * v[4] - v[5])
FI(v, y, i, p, u) == 64 * p * (y[i - 1] + y[i + 1]) + 512 * y[i]
   - u * ((8 - 2 * p) * (v[i + 3] + v[i - 3]) + 2 * (6 * p - 24) * (v[i + 2] + v[i - 2]) + (120 + 34 * p) * (v[i + 1] + v[i - 1]) + 4 * (88 + 10 * p) * v[i])
FRes(v, y, i, p, u) == LET n == Len(v) IN
  CASE i = 1 -> F1(v, y, u) [] i = 2 -> F2(v, y, u) [] i = 3 -> F3(v, y, u)
    [] i = n -> F1(Rev(v), Rev(y), u) [] i = n - 1 -> F2(Rev(v), Rev(y), u) [] i = n - 2 -> F3(Rev(v), Rev(y), u)
    [] OTHER -> FI(v, y, i, p, u)
(* ---- tridiagonal system ---- *)
TRes(a, b, c, d, x, i, u) == LET n == Len(b) IN
  (IF i = 1 THEN 0 ELSE a[i] * x[i - 1]) + b[i] * x[i] + (IF i = n THEN 0 ELSE c[i] * x[i + 1]) - u * d[i]
=============================================================================
