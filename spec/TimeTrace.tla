------------------------------ MODULE TimeTrace ------------------------------
(* C13.  "axis": a time axis as produced (r.full) or summarised; "same": two    *)
(* decompositions that must agree to r.tol; "rej": a call that must be refused. *)
EXTENDS Timeline, Judge
If(c, s) == IF c THEN {} ELSE {s}
TimeBad(r) ==
  CASE r.kind = "axis" -> If(r.v = Index(r.n), "axis:" \o r.who)
    [] r.kind = "long" -> If(r.len = r.n /\ r.first = 0 /\ r.last = r.n - 1 /\ r.mind = 1 /\ r.maxd = 1, "axis:" \o r.who)
    [] r.kind = "same" -> If(r.rows, "number-of-components:" \o r.why) \cup If(r.diff <= r.tol, "differs:" \o r.why)  \* 1e-9 of the largest value
    [] r.kind = "rej" -> If(r.rejected, "accepted:" \o r.why)
    [] OTHER -> {r.kind}
=============================================================================
