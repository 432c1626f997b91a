----------------------------- MODULE EnsembleMC -----------------------------
EXTENDS Ensemble
(* noise of trial t in call c is always series (c-1)*Trials + t: fresh, never shared, independent of the schedule *)
Fresh == \A u \in used : u[3] = (u[1] - 1) * Trials + u[2]
Expected(c) == [t \in 1..Trials |-> Trial((c - 1) * Trials + t)]
(* after a call the groups are the declared ones, whatever the completion order *)
Grouped == (call > 1 /\ next = 1) \/ call > Calls => groups = Aggregate(Expected(call - 1))
Finishes == <>(call > Calls)
=============================================================================
