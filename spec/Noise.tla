-------------------------------- MODULE Noise --------------------------------
(* The random stream of an ensemble object, symbolically: a noise series is     *)
(* named by the seed and everything drawn since it was set.  Two series are     *)
(* equal exactly if they have the same name; an object that was never seeded    *)
(* has a seed of its own (0).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start == [seed |-> 0, drawn |-> <<>>, kind |-> "normal", names |-> <<>>]
(* drawn is run-length encoded: <<kind, count>>; a name is <<seed, runs before, kind, number in this run>> *)
Runs0(d, kind) == IF d # <<>> /\ d[Len(d)][1] = kind THEN SubSeq(d, 1, Len(d) - 1) ELSE d
InRun(d, kind) == IF d # <<>> /\ d[Len(d)][1] = kind THEN d[Len(d)][2] ELSE 0
Draw(st, n) == LET b == Runs0(st.drawn, st.kind)  c == InRun(st.drawn, st.kind) IN
               [st EXCEPT !.drawn = Append(b, <<st.kind, c + n>>),
                          !.names = @ \o [j \in 1..n |-> <<st.seed, b, st.kind, c + j>>]]
(* ops: seed (k), kind (v), call (p processes; n trials), copy *)
NApply(st, a) ==
  CASE a.op = "seed" -> [st EXCEPT !.seed = a.k, !.drawn = <<>>]
    [] a.op = "kind" -> [st EXCEPT !.kind = a.v]
    [] a.op = "call" -> Draw(st, a.n)           \* never depends on the number of processes
    [] OTHER -> st
RECURSIVE NRun(_, _)
NRun(st, h) == IF h = <<>> THEN st ELSE NRun(NApply(st, Head(h)), Tail(h))
=============================================================================
