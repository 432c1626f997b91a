------------------------------ MODULE Parabola ------------------------------
(* Parabolic extrema on integer times t and integer samples s, exact rationals. *)
(* A triple is <<hl, hr, dl, dr, t0, s0>>: gaps and steps to the left/right     *)
(* neighbour and the middle sample.  Everything is relative to the middle.      *)
EXTENDS Extrema

(* interior samples of flat runs are dropped (kept: the two ends of a run) *)
Kept(s) == Asc({i \in 0..Last0(s) : i = 0 \/ i = Last0(s) \/ At(s, i) # At(s, i - 1) \/ At(s, i) # At(s, i + 1)})
Triple(t, s, k, j) ==
  LET p == At(k, j - 1)  c == At(k, j)  n == At(k, j + 1) IN
  [hl |-> At(t, c) - At(t, p), hr |-> At(t, n) - At(t, c),
   dl |-> At(s, c) - At(s, p), dr |-> At(s, n) - At(s, c), t0 |-> At(t, c), s0 |-> At(s, c)]
Triples(t, s) == LET k == Kept(s) IN [j \in 1..(Len(k) - 2) |-> Triple(t, s, k, j)]

(* curvature has the sign of dr*hl - dl*hr; den = 2 (dl*hr - dr*hl) *)
Curv(x) == x.dr * x.hl - x.dl * x.hr
(* vertex offset from the middle sample: VN / VD *)
VD(x) == 2 * (-Curv(x))
VN(x) == (x.hl + x.hr) * x.dl * x.hr - x.hl * (-Curv(x))
(* a rational n/d compared with a half step h/2:   2n/d  ?  h *)
Less(n, d, h) == IF d > 0 THEN 2 * n < h * d ELSE 2 * n > h * d
Geq(n, d, h)  == IF d > 0 THEN 2 * n >= h * d ELSE 2 * n <= h * d
InCell(x) == /\ Curv(x) # 0
             /\ Less(VN(x), VD(x), x.hr)
             /\ Geq(VN(x), VD(x), -x.hl)
(* the vertex sits exactly on the border of the cell *)
OnBorder(x) == Curv(x) # 0 /\ (2 * VN(x) = x.hr * VD(x) \/ 2 * VN(x) = -x.hl * VD(x))

(* slope of the parabola in the middle, times hl*hr*(hl+hr) *)
SlopeN(x) == x.dl * x.hr * x.hr + x.dr * x.hl * x.hl
(* vertex value minus s0 = slope * offset / 2 *)
ValN(x) == SlopeN(x) * VN(x)
ValD(x) == 2 * x.hl * x.hr * (x.hl + x.hr) * VD(x)

(* --- facts checked exhaustively by ParabolaMC --- *)
(* a vertex in the cell is the same as a change of slope sign (or a flat left step) *)
SlopeRule(x) == InCell(x) <=> (x.dl * x.dr < 0 \/ (x.dl = 0 /\ x.dr # 0))
(* the vertex is really on the interpolating parabola f(u) = s0 + m u + c u^2:  f(-hl) = s0 - dl, f(hr) = s0 + dr *)
Interpolates(x) ==
  LET m == SlopeN(x)  c == Curv(x)  w == x.hl * x.hr * (x.hl + x.hr) IN
  /\ -m * x.hl + c * x.hl * x.hl = -x.dl * w
  /\ m * x.hr + c * x.hr * x.hr = x.dr * w
(* and it is its extremum: m + 2 c u = 0 at u = VN/VD *)
Stationary(x) == SlopeN(x) * VD(x) + 2 * Curv(x) * VN(x) = 0
=============================================================================
