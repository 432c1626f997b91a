------------------------------ MODULE PlotTrace ------------------------------
(* C15.  "plot": a call and what the figure shows (rows top to bottom, each a   *)
(* list of lines [y, x]).  "freq": raw analytic phase (1/16384 turn) and the    *)
(* drawn frequency times the time step (same unit).                             *)
EXTENDS Plot, Compact, Judge
If(c, s) == IF c THEN {} ELSE {s}
PlotBad(r) ==
  IF Refused(r.a) THEN If(r.refused, "missing-data-accepted")
  ELSE IF r.refused THEN {"refused"}
  ELSE LET s == Shown(r.a) IN
       If(Len(r.rows) = Len(s), "number-of-rows")
       \cup If(\A j \in 1..Len(r.rows) : Len(r.rows[j]) = 1, "lines-per-row")
       \cup (IF Len(r.rows) = Len(s) /\ \A j \in 1..Len(s) : Len(r.rows[j]) = 1
             THEN (IF r.a.op = "imfs" THEN If(\A j \in 1..Len(s) : r.rows[j][1].y = s[j], "wrong-data") ELSE {})
                  \cup If(\A j \in 1..Len(s) : r.rows[j][1].x = Axis(r.a), "wrong-time-axis")
                  \cup If(\A j \in 1..Len(s) : r.labels[j] = (IF s[j][2] = 0 THEN <<>> ELSE <<j>>), "wrong-label")
             ELSE {})
Turn == 16384
(* difference of two angles, wrapped; near half a turn either sign *)
Wrap(d) == LET m == d % Turn IN IF m > Turn \div 2 THEN m - Turn ELSE m
Steps(d) == LET w == Wrap(d) IN IF CAbs(w) > Turn \div 2 - 8 THEN {w, w - Turn, w + Turn} ELSE {w}
(* unwrapped phase *)
Unwrap(a) == LET F[j \in 1..Len(a)] == IF j = 1 THEN a[1] ELSE F[j - 1] + Wrap(a[j] - a[j - 1]) IN TLCEval([j \in 1..Len(a) |-> F[j]])
Ambiguous(a) == \E j \in 2..Len(a) : CAbs(Wrap(a[j] - a[j - 1])) > Turn \div 2 - 8
FreqOk(a, f, order) ==
  LET n == Len(a) IN
  IF ~order THEN /\ \A i \in 1..n - 1 : \E d \in Steps(a[i + 1] - a[i]) : CAbs(f[i] - d) <= 3
                 /\ f[n] = f[n - 1]
  ELSE Ambiguous(a) \/ LET v == Unwrap(a) IN \A i \in 1..n :
         CAbs(DRes(v, f, i, 1)) <= (IF i \in 3..n - 2 THEN 150 ELSE IF i \in {1, n} THEN 1200 ELSE 600)
(* smoothed: analytic signal (already filtered in the record: its raw phase a), then phase, then frequency pass the filter of     *)
(* strength p/8; witnesses: g = filtered phase, f0 = frequency before the last filter                                              *)
FTol(p) == 700 + 130 * CAbs(p)
Filtered(v, y, p) == \A i \in 1..Len(v) : CAbs(FRes(v, y, i, p, 1)) <= FTol(p)
SmoothOk(a, g, f0, f, p, order) ==
  LET n == Len(a)  v == Unwrap(a) IN
  Ambiguous(a) \/ /\ Filtered(v, g, p) /\ Filtered(f0, f, p)
                  /\ IF order THEN \A i \in 1..n : CAbs(DRes(g, f0, i, 1)) <= (IF i \in 3..n - 2 THEN 150 ELSE IF i \in {1, n} THEN 1200 ELSE 600)
                     ELSE (\A i \in 1..n - 1 : CAbs(f0[i] - g[i + 1] + g[i]) <= 3) /\ f0[n] = f0[n - 1]
PBad(r) ==
  CASE r.kind = "plot" -> PlotBad(r)
    [] r.kind = "freq" -> If(Len(r.f) = Len(r.a) /\ \A j \in 1..Len(r.a) : Len(r.f[j]) = Len(r.a[j]) /\ FreqOk(r.a[j], r.f[j], r.order), IF r.order THEN "frequency-high-order" ELSE "frequency")
    [] r.kind = "smoothf" -> If(SmoothOk(r.a, r.g, r.f0, r.f, r.p, r.order), "smoothed-frequency")
    [] r.kind = "smooth" -> If(r.err <= r.tol, "smoothing:" \o r.what)
    [] r.kind = "strength" -> If(r.refused = ~(-500 < r.alpha /\ r.alpha < 500), "filter-strength-range")
    [] r.kind = "changed" -> If(r.same, "arguments-changed")
    [] OTHER -> {r.kind}
=============================================================================
