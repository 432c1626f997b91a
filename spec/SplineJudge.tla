---------------------------- MODULE SplineJudge ----------------------------
(* Record "spline": kind of spline sk, integer knots x, y; f: per piece the five *)
(* samples at its quarter points in fixed point Q; tok: evaluated exactly at the *)
(* requested times.  Record "env": envelopes of a signal, deviations in fixed    *)
(* point relative to the signal.                                                 *)
EXTENDS Spline
Q == 65536
Pc(f) == 1..Len(f)
Zero(v, tol) == SAbs(v) <= tol
(* measured slope at an end of a piece in twelfths, fixed point 1024:  (4/6h) * D1 * 12 / 64 *)
Meas(d1, h) == (d1 \div 8) \div h
Want(s) == ((s[1] * 16) \div s[2]) * 64 + ((((s[1] * 16) % s[2]) * 64) \div s[2])
Knots(r) == \A j \in Pc(r.f) : Zero(r.f[j][1] - r.y[j] * Q, 2) /\ Zero(r.f[j][5] - r.y[j + 1] * Q, 2)
Linear(r) == \A j \in Pc(r.f) : \A k \in 0..4 : Zero(4 * r.f[j][k + 1] - ((4 - k) * r.y[j] + k * r.y[j + 1]) * Q, 8)
Piecewise(r) == \A j \in Pc(r.f) : Zero(D4(r.f[j]), 24)
C1(r, h) == \A j \in 1..(Len(r.f) - 1) : Zero(D1b(r.f[j]) * h[j + 1] - D1a(r.f[j + 1]) * h[j], 400)
C2(r, h) == \A j \in 1..(Len(r.f) - 1) : Zero(D2b(r.f[j]) * h[j + 1] * h[j + 1] - D2a(r.f[j + 1]) * h[j] * h[j], 800)
JumpFree(r, h, j) == Zero(D3(r.f[j]) * h[j + 1] * h[j + 1] * h[j + 1] - D3(r.f[j + 1]) * h[j] * h[j] * h[j], 2000)
Natural(r) == Zero(D2a(r.f[1]), 24) /\ Zero(D2b(r.f[Len(r.f)]), 24)
Slopes(r, h) ==
  LET m == Sec(r.x, r.y) IN
  \A j \in Pc(r.f) : /\ Zero(Meas(D1a(r.f[j]), h[j]) - Want(Slope(r.sk, h, m, j)), 12)
                     /\ Zero(Meas(D1b(r.f[j]), h[j]) - Want(Slope(r.sk, h, m, j + 1)), 12)
(* quadratic: one parabola around every inner knot (between the midpoints of its intervals),          *)
(* the first and last reaching to the ends, joined with a common tangent                              *)
Quadratic(r, h) ==
  LET n == Len(r.f) IN
  /\ \A j \in 1..(n - 1) :
       LET L1 == r.f[j][4] - r.f[j][5]  L2 == r.f[j][3] - r.f[j][5]
           R1 == r.f[j + 1][2] - r.f[j + 1][1]  R2 == r.f[j + 1][3] - r.f[j + 1][1]
       IN /\ Zero((L2 - 2 * L1) * h[j + 1] * h[j + 1] - (R2 - 2 * R1) * h[j] * h[j], 200)
          /\ Zero((L2 - 4 * L1) * h[j + 1] - (4 * R1 - R2) * h[j], 100)
  /\ Zero(D3(r.f[1]), 12) /\ Zero(D3b(r.f[1]), 12) /\ Zero(D3(r.f[n]), 12) /\ Zero(D3b(r.f[n]), 12)
  /\ \A j \in Pc(r.f) : Zero(D4(r.f[j]), 24)
If(c, s) == IF c THEN {} ELSE {s}
SplBad(r) ==
  CASE r.kind = "spline" ->
       LET h == Gaps(r.x) IN
       If(r.tok, "time") \cup If(Knots(r), "misses-knot")
       \cup (CASE r.sk \in {"linear", "slinear"} -> If(Linear(r), "not-linear")
               [] r.sk = "quadratic" -> If(Quadratic(r, h), "not-quadratic")
               [] r.sk = "cubic" -> If(Piecewise(r), "not-cubic") \cup If(C1(r, h), "kink") \cup If(C2(r, h), "curvature-jump")
                                    \cup (IF Len(r.x) = 3 THEN If(Natural(r), "not-natural")
                                          ELSE If(JumpFree(r, h, 1) /\ JumpFree(r, h, Len(r.f) - 1), "not-not-a-knot"))
               [] OTHER -> If(Piecewise(r), "not-cubic") \cup If(Slopes(r, h), "slopes"))
    [] r.kind = "env" -> If(r.few \/ (Zero(r.miss, 8) /\ Zero(r.diff, 8) /\ r.len), "envelope")
    [] r.kind = "unknown" -> If(r.rejected, "unknown-kind-accepted")
    [] OTHER -> {r.kind}
=============================================================================
