---------------------------- MODULE EnsembleRules ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- declarative aggregation: trials = sequence of [m: sequence of modes, tr: <<trend>> or <<>>] ---- *)
EMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Depth(tr) == EMax({0} \cup {Len(tr[t].m) : t \in 1..Len(tr)})
RECURSIVE Having(_, _, _)
Having(tr, k, t) == IF t > Len(tr) THEN <<>>
                    ELSE (IF Len(tr[t].m) >= k THEN <<tr[t].m[k]>> ELSE <<>>) \o Having(tr, k, t + 1)
RECURSIVE Trends(_, _)
Trends(tr, t) == IF t > Len(tr) THEN <<>> ELSE tr[t].tr \o Trends(tr, t + 1)
Aggregate(tr) == LET d == Depth(tr)
                     body == [k \in 1..d |-> Having(tr, k, 1)]
                     tail == Trends(tr, 1)
                 IN IF tail = <<>> THEN body ELSE Append(body, tail)

=============================================================================
