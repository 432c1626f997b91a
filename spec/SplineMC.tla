------------------------------ MODULE SplineMC ------------------------------
(* Knot slope rules on all small knot sets: symmetric in time and sign, exact   *)
(* on straight lines, shape preserving where promised; and the difference       *)
(* formulas are exact on cubics.                                                *)
EXTENDS Spline
CONSTANTS H, Y, NK
VARIABLES h, y
Init == h = <<>> /\ y \in [1..1 -> {0}]
Next == /\ Len(y) < NK
        /\ \E g \in 1..H, d \in -Y..Y : h' = Append(h, g) /\ y' = Append(y, d)
Spec == Init /\ [][Next]_<<h, y>>
X[k \in 1..NK] == IF k = 1 THEN 0 ELSE X[k - 1] + h[k - 1]
m == TLCEval([j \in 1..Len(h) |-> (12 \div h[j]) * (y[j + 1] - y[j])])
Rv(s) == TLCEval([k \in 1..Len(s) |-> s[Len(s) + 1 - k]])
Ng(s) == TLCEval([k \in 1..Len(s) |-> -s[k]])
Kinds == {"cubic_hermite", "pchip", "akima"}
Inv == Len(y) >= 3 =>
  LET mm == m IN
  \A kd \in Kinds : \A k \in 1..Len(y) :
    LET s == Slope(kd, h, mm, k) IN
    /\ s[2] > 0
    /\ LET r == Slope(kd, Rv(h), Ng(Rv(mm)), Len(y) + 1 - k) IN REq(<<-r[1], r[2]>>, s)
    /\ LET r == Slope(kd, h, Ng(mm), k) IN REq(<<-r[1], r[2]>>, s)
    /\ (\A j \in 1..Len(h) : mm[j] = mm[1]) => REq(s, <<mm[1], 1>>)
    /\ kd = "pchip" => \A j \in {k - 1, k} \cap (1..Len(h)) :
          (mm[j] = 0 => s[1] = 0) /\ (SSign(s[1]) \in {0, SSign(mm[j])}) /\ SAbs(s[1]) <= 3 * SAbs(mm[j]) * s[2]
(* the difference formulas on f(u) = a + b u + c u^2 + d u^3, u = 0..4 *)
P(a, b, c, d, u) == a + b * u + c * u * u + d * u * u * u
F(a, b, c, d) == [j \in 1..5 |-> P(a, b, c, d, j - 1)]
ASSUME \A a, b, c, d \in -2..2 : LET f == TLCEval(F(a, b, c, d)) IN
  /\ D1a(f) = 6 * b /\ D1b(f) = 6 * (b + 8 * c + 48 * d)
  /\ D2a(f) = 2 * c /\ D2b(f) = 2 * c + 24 * d
  /\ D3(f) = 6 * d /\ D3b(f) = 6 * d /\ D4(f) = 0
=============================================================================
