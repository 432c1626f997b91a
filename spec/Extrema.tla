------------------------------ MODULE Extrema ------------------------------
(* Extrema and zero crossings of a finite sequence of integers (ranks of the    *)
(* samples), as the user of the default detection mode relies on.  Positions    *)
(* are sample numbers counted from 0, as in the implementation.                  *)
(*                                                                              *)
(* This is the declarative definition (flat runs).  ExtremaScan is an           *)
(* independent operational one (a left-to-right scanner, one action per         *)
(* sample); ExtremaMC checks that they agree on every sequence of a bounded     *)
(* domain; the trace specification applies the declarative one to what the      *)
(* code returned.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

At(s, i) == s[i + 1]                    \* 0-based access
Last0(s) == Len(s) - 1

Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* middle of [a, b]; a tie goes to the even sample number *)
Mid(a, b) == LET t == a + b IN
             IF t % 2 = 0 THEN t \div 2
             ELSE LET l == t \div 2 IN IF l % 2 = 0 THEN l ELSE l + 1

(* maximal flat runs <<a, b>> *)
RunStart(s, a) == a = 0 \/ At(s, a - 1) # At(s, a)
RunEnd(s, b) == b = Last0(s) \/ At(s, b + 1) # At(s, b)
EndOf(s, a) == CHOOSE b \in a..Last0(s) : RunEnd(s, b) /\ \A k \in a..(b - 1) : ~RunEnd(s, k)
Runs(s) == {<<a, EndOf(s, a)>> : a \in {x \in 0..Last0(s) : RunStart(s, x)}}

Inner(s) == {r \in Runs(s) : r[1] > 0 /\ r[2] < Last0(s)}

Maxima(s) == {Mid(r[1], r[2]) : r \in {q \in Inner(s) : At(s, q[1] - 1) < At(s, q[1]) /\ At(s, q[2] + 1) < At(s, q[2])}}
Minima(s) == {Mid(r[1], r[2]) : r \in {q \in Inner(s) : At(s, q[1] - 1) > At(s, q[1]) /\ At(s, q[2] + 1) > At(s, q[2])}}

(* zero crossings of a sequence of signs *)
Crossings(z) == {i \in 0..(Last0(z) - 1) : At(z, i) * At(z, i + 1) < 0}
                \cup {Mid(r[1], r[2]) : r \in {q \in Runs(z) : At(z, q[1]) = 0}}

Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Neg(s) == [k \in 1..Len(s) |-> -s[k]]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

=============================================================================
