------------------------------ MODULE CeemdanMC ------------------------------
EXTENDS Ceemdan
V == -1..1
Complete == pc = "done" => CSum(comps) + rest = sig
Remainder == pc \in {"test", "done"} => prev = sig - CSum(comps)
Limited == Limit > 0 => Len(comps) <= Limit
(* stage k uses noise mode k, once per trial, and nothing else *)
RightNoise == \A u \in used : u[3] \in {0, u[1]} /\ (u[3] = 0 <=> nm[u[2]] < u[1])
AllTrials == pc = "test" => Cardinality({u \in used : u[1] = stage}) = Trials
Terminates == <>(pc = "done")
=============================================================================
