----------------------------- MODULE MatlabTrace -----------------------------
(* Judges recorded runs of the MATLAB compatible variant, its extrema finder    *)
(* and its boundary extension.                                                  *)
EXTENDS MatlabRules, Ledger, Judge
X == INSTANCE Extrema
M == INSTANCE Mirror
P == INSTANCE SplineJudge
If(c, s) == IF c THEN {} ELSE {s}
RowTol == 16384
ValuesAt(s, p) == [k \in 1..Len(p) |-> IF p[k] \in 0..X!Last0(s) THEN X!At(s, p[k]) ELSE -98]
ExtBad(r) ==
  LET A == X!Asc(X!Maxima(r.s))  B == X!Asc(X!Minima(r.s)) IN
       If(r.maxp = A /\ r.maxv = ValuesAt(r.s, A), "maxima")
  \cup If(r.minp = B /\ r.minv = ValuesAt(r.s, B), "minima")
  \cup If(r.zer = X!Asc(X!Crossings(r.z)), "zero-crossings")
  \cup If(r.same, "input-modified")
KnotBad(r) ==
  LET e == M!Extend("simple", r.hi, r.lo, r.a, r.sa, r.b, r.sb, r.nb) IN
       If(r.omax = e[1], "max-knots") \cup If(r.omin = e[2], "min-knots") \cup If(r.same, "input-modified")
(* a row agrees with some outcome of its rule, the reported iteration count is that of the outcome, *)
(* and the reported number of extrema that of the candidate (before the last subtraction when the   *)
(* number of rounds alone decided)                                                                  *)
RowFits(r, m, o) ==
  /\ o[1] # "open" /\ m.rounds[o[2] + 1].hit
  /\ m.iter = o[2] + 1
  /\ m.ext \in {m.rounds[o[2] + 1].e} \cup (IF r.rule = "fixe" \/ o[1] \in {"flat", "cap"} THEN {m.rounds[IF o[2] = 0 THEN 1 ELSE o[2]].e} ELSE {})
RunBad(r) ==
  LET K == Len(r.modes)
      Fit(j) == {o \in MOutcomes(r.rule, r.par, r.cap, r.modes[j]) : RowFits(r, r.modes[j], o)}
      Last(j) == \E o \in Fit(j) : o[1] = "last"
  IN If(\A j \in 1..K : Fit(j) # {}, "row-not-by-rule")
     \cup If(\A j \in 1..K - 1 : ~Last(j), "goes-on-after-the-last")
     \cup If(K >= 1 /\ (Last(K) \/ (r.limit >= 2 /\ K = r.limit - 1)), "stops-too-early")
     \cup If(r.limit < 2 \/ K + (IF r.rest THEN 1 ELSE 0) <= r.limit, "limit")
     \cup If(r.zero = "e" \/ r.rest = (r.zero = "n"), "remainder-row")
LedBad(r) ==
  IF ~r.keys THEN {"numbering"}
  ELSE IF ~r.finite THEN {"not-finite"}
  ELSE If(AddsUp(r.rows, r.s, RowTol + r.slack), "incomplete") \cup If(r.same, "input-modified")
MatlabBad(r) ==
  CASE r.kind = "simple" -> ExtBad(r)
    [] r.kind = "mirror" -> KnotBad(r)
    [] r.kind = "spline" -> P!SplBad(r)
    [] r.kind = "run" -> RunBad(r)
    [] r.kind = "ledger" -> LedBad(r)
    [] OTHER -> {r.kind}
=============================================================================
