------------------------------ MODULE ImageMC ------------------------------
(* Decomposition of an image, one pixel of it: normalisation by offset and      *)
(* scale, sifting that subtracts arbitrary means, limit, remainder.             *)
EXTENDS Integers, Sequences
CONSTANTS Vals, Limits, MaxRows, MaxRounds, Scales, Offsets
VARIABLES s, off, sc, rows, cand, n, lim, done, out
vars == <<s, off, sc, rows, cand, n, lim, done, out>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Rest == s - Sum(rows)
Init == /\ s \in Vals /\ off \in Offsets /\ sc \in Scales /\ lim \in Limits
        /\ rows = <<>> /\ cand = s /\ n = 0 /\ done = FALSE /\ out = <<>>
Sift == /\ ~done /\ n < MaxRounds /\ Len(rows) < MaxRows
        /\ \E m \in Vals : cand' = cand - m
        /\ n' = n + 1 /\ UNCHANGED <<s, off, sc, rows, lim, done, out>>
Close == /\ ~done /\ Len(rows) < MaxRows
         /\ rows' = Append(rows, cand)
         /\ cand' = s - Sum(rows') /\ n' = 0
         /\ done' \in (IF Len(rows') = lim \/ Len(rows') = MaxRows THEN {TRUE} ELSE BOOLEAN)
         /\ UNCHANGED <<s, off, sc, lim, out>>
(* a zero remainder is left out; scale is undone on every row, the offset on the last *)
Finish == /\ done /\ out = <<>>
          /\ LET R == IF Rest = 0 THEN rows ELSE Append(rows, Rest) IN
             out' = [k \in 1..Len(R) |-> R[k] * sc + (IF k = Len(R) THEN off ELSE 0)]
          /\ UNCHANGED <<s, off, sc, rows, cand, n, lim, done>>
Next == Sift \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
Complete == out # <<>> => Sum(out) = s * sc + off
Bounded == out # <<>> /\ lim > 0 => Len(out) <= lim + 1
=============================================================================
