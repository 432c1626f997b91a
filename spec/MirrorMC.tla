------------------------------ MODULE MirrorMC ------------------------------
(* All alternating placements of extrema inside 0..N in half or whole units,    *)
(* all relations of the end samples to the nearest extremum, both modes.        *)
EXTENDS Mirror, FiniteSets, TLC
CONSTANTS N, NB
VARIABLES mode, pos, firstmax, sa, sb, nb
vars == <<mode, pos, firstmax, sa, sb, nb>>
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Init == /\ mode \in {"simple", "parabol"}
        /\ pos \in {Sorted(S) : S \in {X \in SUBSET (1..(N - 1)) : Cardinality(X) >= 3}}
        /\ firstmax \in BOOLEAN
        /\ sa = 0 /\ sb = 0 /\ nb = 0
(* end samples: below, at, between, at, above the extremal values -2 and 2 *)
Next == /\ nb = 0 /\ nb' \in 1..NB
        /\ sa' \in {-3, -2, 0, 2, 3} /\ sb' \in {-3, -2, 0, 2, 3}
        /\ UNCHANGED <<mode, pos, firstmax>>
Spec == Init /\ [][Next]_vars
(* maxima have value 2, minima value -2; end samples range over all relations *)
Pick(odd) == LET n == IF odd THEN (Len(pos) + 1) \div 2 ELSE Len(pos) \div 2
             IN [j \in 1..n |-> pos[IF odd THEN 2 * j - 1 ELSE 2 * j]]
hi == TLCEval(LET p == Pick(firstmax) IN [j \in 1..Len(p) |-> <<p[j], 2>>])
lo == TLCEval(LET p == Pick(~firstmax) IN [j \in 1..Len(p) |-> <<p[j], -2>>])
Check(h, l, out) ==
       /\ Increasing(out[1]) /\ Increasing(out[2])
       /\ Spans(out[1], 0, N) /\ Spans(out[2], 0, N)
       (* never more than nb new knots per side, always at least one *)
       /\ \A k \in 1..2 : LET old == IF k = 1 THEN h ELSE l IN
            Len(out[k]) \in (Len(old) + 2)..(Len(old) + 2 * nb)
       (* mirror symmetric in time and in sign *)
       /\ LET o == Extend(mode, RevT(h), RevT(l), -N, sb, 0, sa, nb) IN RevT(o[1]) = out[1] /\ RevT(o[2]) = out[2]
       /\ LET o == Extend(mode, NegV(l), NegV(h), 0, -sa, N, -sb, nb) IN NegV(o[2]) = out[1] /\ NegV(o[1]) = out[2]
Inv == nb = 0 \/ LET h == hi  l == lo IN Check(h, l, TLCEval(Extend(mode, h, l, 0, sa, N, sb, nb)))
=============================================================================
