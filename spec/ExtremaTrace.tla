---------------------------- MODULE ExtremaTrace ----------------------------
(* Judges what the default extrema finder returned.  A record holds the ranks   *)
(* `s' and signs `z' of the samples and what was reported, mapped back to       *)
(* sample numbers (-1: no such position) and to ranks (-99: no such value).     *)
EXTENDS Extrema, Judge
ValuesAt(s, p) == [k \in 1..Len(p) |-> IF p[k] \in 0..Last0(s) THEN At(s, p[k]) ELSE -98]
ExtBad(r) ==
  IF r.kind # "simple" THEN {r.kind}
  ELSE LET M == Asc(Maxima(r.s))  m == Asc(Minima(r.s))  Z == Asc(Crossings(r.z)) IN
       (IF r.maxp = M THEN {} ELSE {"maxima"})
  \cup (IF r.minp = m THEN {} ELSE {"minima"})
  \cup (IF r.maxp = M /\ r.maxv # ValuesAt(r.s, M) THEN {"maxima-values"} ELSE {})
  \cup (IF r.minp = m /\ r.minv # ValuesAt(r.s, m) THEN {"minima-values"} ELSE {})
  \cup (IF r.zer = Z THEN {} ELSE {"zero-crossings"})
  \cup (IF r.same THEN {} ELSE {"input-modified"})
=============================================================================
