------------------------------- MODULE Spline -------------------------------
(* Interpolating splines on integer knots x (gaps 1..4) with integer values y.  *)
(* Secant slopes are kept in twelfths so that they are integers; knot slopes    *)
(* are rationals <<n, d>>, d > 0, also in twelfths.                             *)
EXTENDS Integers, Sequences, TLC

SAbs(a) == IF a < 0 THEN -a ELSE a
SSign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Gap(x, j) == x[j + 1] - x[j]
Gaps(x) == TLCEval([j \in 1..(Len(x) - 1) |-> Gap(x, j)])
Sec(x, y) == TLCEval([j \in 1..(Len(x) - 1) |-> (12 \div Gap(x, j)) * (y[j + 1] - y[j])])

(* cubic Hermite with finite differences: distance weighted inside, one sided at the ends *)
HermiteSlope(h, m, k) ==
  LET n == Len(m) IN
  IF k = 1 THEN <<m[1], 1>> ELSE IF k = n + 1 THEN <<m[n], 1>>
  ELSE <<h[k - 1] * m[k] + h[k] * m[k - 1], h[k - 1] + h[k]>>

(* shape preserving (Fritsch-Butland): weighted harmonic mean inside, limited three point formula at the ends *)
PchipEnd(h0, h1, m0, m1) ==
  LET n == (2 * h0 + h1) * m0 - h0 * m1
      d == h0 + h1
  IN IF SSign(n) # SSign(m0) THEN <<0, 1>>
     ELSE IF SSign(m0) # SSign(m1) /\ SAbs(n) > 3 * SAbs(m0) * d THEN <<3 * m0, 1>>
     ELSE <<n, d>>
PchipSlope(h, m, k) ==
  LET n == Len(m) IN
  IF k = 1 THEN PchipEnd(h[1], h[2], m[1], m[2])
  ELSE IF k = n + 1 THEN PchipEnd(h[n], h[n - 1], m[n], m[n - 1])
  ELSE IF m[k - 1] * m[k] <= 0 THEN <<0, 1>>
  ELSE LET w1 == 2 * h[k] + h[k - 1]
           w2 == h[k] + 2 * h[k - 1]
           s == SSign(m[k])
       IN <<s * (w1 + w2) * m[k - 1] * m[k], s * (w1 * m[k] + w2 * m[k - 1])>>

(* Akima: secants extended linearly by two on both sides *)
Ext(m) == LET n == Len(m)
              l1 == 2 * m[1] - m[2]   l2 == 2 * l1 - m[1]
              r1 == 2 * m[n] - m[n - 1]  r2 == 2 * r1 - m[n]
          IN <<l2, l1>> \o m \o <<r1, r2>>
AkimaSlope(m, k) ==
  LET e == Ext(m)                       \* e[k+2] is the secant to the right of knot k
      w1 == SAbs(e[k + 3] - e[k + 2])
      w2 == SAbs(e[k + 1] - e[k])
  IN IF w1 + w2 = 0 THEN <<e[k + 1] + e[k + 2], 2>>
     ELSE <<w1 * e[k + 1] + w2 * e[k + 2], w1 + w2>>

Slope(kind, h, m, k) ==
  CASE kind = "cubic_hermite" -> HermiteSlope(h, m, k)
    [] kind = "pchip" -> PchipSlope(h, m, k)
    [] kind = "akima" -> AkimaSlope(m, k)
REq(a, b) == a[1] * b[2] = b[1] * a[2]

(* ---- five equidistant samples f of one piece (quarter points), as divided differences ---- *)
(* 6 * first derivative * (quarter step), at the start and at the end *)
D1a(f) == -11 * f[1] + 18 * f[2] - 9 * f[3] + 2 * f[4]
D1b(f) == 11 * f[5] - 18 * f[4] + 9 * f[3] - 2 * f[2]
(* second derivative * (quarter step)^2 *)
D2a(f) == 2 * f[1] - 5 * f[2] + 4 * f[3] - f[4]
D2b(f) == 2 * f[5] - 5 * f[4] + 4 * f[3] - f[2]
D3(f) == -f[1] + 3 * f[2] - 3 * f[3] + f[4]
D3b(f) == -f[2] + 3 * f[3] - 3 * f[4] + f[5]
D4(f) == f[1] - 4 * f[2] + 6 * f[3] - 4 * f[4] + f[5]
=============================================================================
