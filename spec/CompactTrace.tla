---------------------------- MODULE CompactTrace ----------------------------
(* C16: results in 1/16384 put into the equations; what is left must be the     *)
(* rounding of the record (half a unit times the sum of the coefficients).      *)
EXTENDS Compact, Judge
If(c, s) == IF c THEN {} ELSE {s}
U == 16384
Tol(s) == s \div 2 + s \div 8 + 2
CBad(r) ==
  CASE r.kind = "pade" -> IF Len(r.y) # Len(r.v) THEN {"length"} ELSE
         If(\A i \in 3..Len(r.v) - 2 : CAbs(DRes(r.v, r.y, i, U)) <= Tol(60), "derivative-interior")
         \cup If(\A i \in {1, 2, Len(r.v) - 1, Len(r.v)} : CAbs(DRes(r.v, r.y, i, U)) <= Tol(IF i \in {1, Len(r.v)} THEN 360 ELSE 180), "derivative-border")
    [] r.kind = "filt" -> IF Len(r.y) # Len(r.v) THEN {"length"} ELSE
         If(\A i \in 4..Len(r.v) - 3 : CAbs(FRes(r.v, r.y, i, r.p, U)) <= Tol(512 + 128 * CAbs(r.p)), "filter-interior")
         \cup If(\A i \in {1, 2, 3, Len(r.v) - 2, Len(r.v) - 1, Len(r.v)} : CAbs(FRes(r.v, r.y, i, r.p, U)) <= Tol(16), "filter-border")
    [] r.kind = "tdma" -> IF Len(r.x) # Len(r.d) THEN {"length"} ELSE
         If(\A i \in 1..Len(r.d) : CAbs(TRes(r.a, r.b, r.c, r.d, r.x, i, U)) <= Tol(30), "tridiagonal")
    [] r.kind = "poly" -> If(r.err <= 1000, "order:" \o r.what)       \* 1e-9 of the largest value
    [] OTHER -> {r.kind}
=============================================================================
