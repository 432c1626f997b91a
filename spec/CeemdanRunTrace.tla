--------------------------- MODULE CeemdanRunTrace ---------------------------
(* C11.  "run": one complete run: ledger of the rows, and what was left after   *)
(* each mode.  "hist": a history of seeding and calls on one object, with the   *)
(* identity of each result.  "end": public end condition.  "same": two runs     *)
(* that must agree.                                                             *)
EXTENDS Ledger, CeemdanRules, Noise, Judge
If(c, s) == IF c THEN {} ELSE {s}
RunBad(r) ==
  IF ~r.finite THEN {"not-finite"} ELSE IF ~r.shape THEN {"shape"} ELSE
  LET K == Len(r.rows) - 1 IN
  If(AddsUp(r.rows, r.s, 16384), "incomplete")
  \cup If(K >= 1 /\ (r.limit > 0 => K <= r.limit), "limit-exceeded")
  \cup If(\A j \in 1..K - 1 : CStops(r.limit, j, Over(r.left[j])) # "y", "stops-too-late")
  \cup If(K >= r.hard + 1 \/ CStops(r.limit, K, Over(r.left[K])) # "n", "stops-too-early")
Names(h, i) == LET A == NRun(Start, SubSeq(h, 1, i - 1))  B == NRun(Start, SubSeq(h, 1, i)) IN SubSeq(B.names, Len(A.names) + 1, Len(B.names))
HistBad(r) ==
  LET C == {i \in 1..Len(r.h) : r.h[i].op = "call"}
      pairs == {<<Names(r.h, i), r.ids[i]>> : i \in C}
  IN If(Cardinality(pairs) = Cardinality({x[1] : x \in pairs}), "not-reproducible")
     \cup If(Cardinality(pairs) = Cardinality({x[2] : x \in pairs}), "noise-reused")
CeeRunBad(r) ==
  CASE r.kind = "run" -> RunBad(r)
    [] r.kind = "hist" -> HistBad(r)
    [] r.kind = "end" -> LET e == CStops(r.limit, r.modes, Over(r.left)) IN If(e = "e" \/ r.said = (e = "y"), "end-condition")
    [] r.kind = "same" -> If(r.rows, "different-number:" \o r.why) \cup If(r.diff <= 1000, "differs:" \o r.why)   \* 1e-9 units
    [] OTHER -> {r.kind}
=============================================================================
