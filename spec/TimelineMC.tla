----------------------------- MODULE TimelineMC -----------------------------
(* scaled down types: 2..4 bit integers, 1..3 bit mantissas *)
EXTENDS Timeline
VARIABLES ty, n, pos, prev
Ints == <<[k |-> "u", b |-> 4], [k |-> "u", b |-> 6], [k |-> "u", b |-> 8]>>
Floats == <<[k |-> "f", b |-> 2], [k |-> "f", b |-> 4], [k |-> "f", b |-> 7]>>
Big(t) == IF t.k = "f" THEN Floats ELSE Ints
Types == [k : {"i", "u"}, b : 2..4] \cup [k : {"f"}, b : 1..3]
Chosen == Pick(ty, n, Big(ty))
Init == ty \in Types /\ n \in 1..200 /\ pos = 0 /\ prev = -1
Next == pos < n /\ prev' = Cast(Chosen, pos) /\ pos' = pos + 1 /\ UNCHANGED <<ty, n>>
Spec == Init /\ [][Next]_<<ty, n, pos, prev>>
Exact == pos > 0 => prev = pos - 1
(* Holds is exact: one more sample and the type fails *)
Tight == pos = 0 /\ n = 1 => /\ \A j \in 0..Holds(ty) - 1 : Cast(ty, j) = j
                             /\ Cast(ty, Holds(ty)) # Holds(ty)
=============================================================================
