------------------------------- MODULE Matlab -------------------------------
(* The decomposition loop of the MATLAB compatible variant as a state machine   *)
(* (values are integers; everything that depends on shape is nondeterministic). *)
EXTENDS MatlabRules, TLC
CONSTANTS Rule, Par, Cap, Limit, Vals, Exts, Zers
VARIABLES pc, sig, rows, h, k, nh, e, iters
mvars == <<pc, sig, rows, h, k, nh, e, iters>>
MSum(s) == LET F[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE F[j - 1] + s[j] IN F[Len(s)]
MInit == pc = "start" /\ sig \in Vals /\ rows = <<>> /\ h = 0 /\ k = 0 /\ nh = 0 /\ e = 0 /\ iters = <<>>
Start == /\ pc = "start" /\ h' = sig - MSum(rows) /\ k' = 0 /\ nh' = 0 /\ e' \in Exts /\ pc' = "test"
         /\ UNCHANGED <<sig, rows, iters>>
(* look at the candidate of round k *)
Test == /\ pc = "test"
        /\ \E z \in Zers, crit \in BOOLEAN :
             /\ nh' = IF e > 2 /\ k < Cap THEN MNextNh(Rule, k, nh, e, z) ELSE nh
             /\ pc' = IF e <= 2 THEN (IF k = 0 THEN "last" ELSE "close")
                      ELSE IF k >= Cap THEN "close"
                      ELSE IF MStops(Rule, Par, k, nh', IF crit THEN "y" ELSE "n", e, z) = "y" THEN "close" ELSE "subtract"
        /\ UNCHANGED <<sig, rows, h, k, e, iters>>
Subtract == /\ pc = "subtract" /\ \E v \in Vals : h' = h - v
            /\ e' \in Exts /\ k' = k + 1 /\ pc' = "test" /\ UNCHANGED <<sig, rows, nh, iters>>
CloseRow == /\ pc \in {"close", "last"}
            /\ rows' = Append(rows, h) /\ iters' = Append(iters, k + 1)
            /\ pc' = IF pc = "last" \/ Len(rows') = Limit - 1 THEN "final" ELSE "start"
            /\ UNCHANGED <<sig, h, k, nh, e>>
Finish == /\ pc = "final"
          /\ LET r == sig - MSum(rows) IN
             /\ rows' = IF r # 0 THEN Append(rows, r) ELSE rows
             /\ iters' = IF r # 0 THEN Append(iters, 0) ELSE iters
          /\ pc' = "done" /\ UNCHANGED <<sig, h, k, nh, e>>
MNext == Start \/ Test \/ Subtract \/ CloseRow \/ Finish
MSpec == MInit /\ [][MNext]_mvars
(* ---- what must hold ---- *)
V == -1..1
V2 == 0..1
CONSTANT Depth
Bound == Len(rows) <= Depth /\ EAbs(h) <= 2
MComplete == pc = "done" => MSum(rows) = sig
MLimited == Limit >= 2 => Len(rows) <= Limit
MCounts == Len(iters) = Len(rows)
MRounds == /\ k <= Cap
           /\ (pc = "close" /\ Rule = "fixe" /\ e > 2) => k = IF Par < Cap THEN Par ELSE Cap
           /\ (pc = "close" /\ Rule = "fixeh" /\ e > 2 /\ k < Cap) => nh = Par /\ k >= Par
           /\ (pc = "subtract" /\ Rule = "fixeh") => nh < Par
MOnlyLastZero == \A j \in 1..Len(iters) : iters[j] = 0 => j = Len(iters) /\ pc = "done"
=============================================================================
