----------------------------- MODULE MirrorTrace -----------------------------
(* Record: mode, hi, lo, a, sa, b, sb, nb as in Mirror; omax, omin: the knots   *)
(* the code returned.  tol: 0 on exact (integer) data, else position tolerance. *)
EXTENDS Mirror, Judge
Abs(x) == IF x < 0 THEN -x ELSE x
Same(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Abs(x[j][1] - y[j][1]) <= tol /\ x[j][2] = y[j][2]
MirrorBad(r) ==
  IF r.kind # "mirror" THEN {r.kind}
  ELSE LET e == Extend(r.mode, r.hi, r.lo, r.a, r.sa, r.b, r.sb, r.nb)
       IN (IF Same(r.omax, e[1], r.tol) THEN {} ELSE {"max-knots"})
     \cup (IF Same(r.omin, e[2], r.tol) THEN {} ELSE {"min-knots"})
     \cup (IF Increasing(r.omax) /\ Increasing(r.omin) THEN {} ELSE {"not-increasing"})
     \cup (IF Spans(r.omax, r.a, r.b) /\ Spans(r.omin, r.a, r.b) THEN {} ELSE {"not-spanning"})
     \cup (IF r.same THEN {} ELSE {"input-modified"})
=============================================================================
