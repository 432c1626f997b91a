-------------------------------- MODULE Grid --------------------------------
(* Images: sequences of rows of integers.  Local extrema, mirror extension and  *)
(* the peaks of the morphological variant (tops that rise at least h above      *)
(* every saddle leading to something higher by h).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NR(I) == Len(I)
NC(I) == Len(I[1])
Cells(I) == (1..NR(I)) \X (1..NC(I))
V(I, p) == I[p[1]][p[2]]
Nb(I, p) == {q \in ((p[1] - 1)..(p[1] + 1)) \X ((p[2] - 1)..(p[2] + 1)) : q # p /\ q[1] \in 1..NR(I) /\ q[2] \in 1..NC(I)}
Inner(I, p) == p[1] \in 2..(NR(I) - 1) /\ p[2] \in 2..(NC(I) - 1)
(* inner pixels not exceeded by any of their eight neighbours / not below any *)
LocMax(I) == {p \in Cells(I) : Inner(I, p) /\ \A q \in Nb(I, p) : V(I, q) <= V(I, p)}
LocMin(I) == {p \in Cells(I) : Inner(I, p) /\ \A q \in Nb(I, p) : V(I, q) >= V(I, p)}
Neg(I) == TLCEval([i \in 1..NR(I) |-> [j \in 1..NC(I) |-> -I[i][j]]])
(* nine copies, every one the mirror image of its neighbours *)
Fold(i, n) == IF i <= n THEN n + 1 - i ELSE IF i <= 2 * n THEN i - n ELSE 3 * n + 1 - i
Tile(I) == TLCEval([i \in 1..(3 * NR(I)) |-> [j \in 1..(3 * NC(I)) |-> I[Fold(i, NR(I))][Fold(j, NC(I))]]])
(* what can be reached from p without going below it *)
Reach(I, p) ==
  LET RECURSIVE Grow(_, _)
      Grow(S, F) == LET N == {q \in UNION {Nb(I, x) : x \in F} : q \notin S /\ V(I, q) >= V(I, p)}
                    IN IF N = {} THEN S ELSE Grow(S \cup N, N)
  IN Grow({p}, {p})
Peaks(I, h) == {p \in Cells(I) : \A q \in Reach(I, p) : V(I, q) < V(I, p) + h}
Pits(I, h) == Peaks(Neg(I), h)
=============================================================================
