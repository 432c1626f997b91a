-------------------------------- MODULE Emd --------------------------------
(* The decomposition as a state machine.  Signals are elements of an abelian    *)
(* group (integers here: only sums and differences are used).  What depends on  *)
(* the shape of the signal (number of extrema and zero crossings, the mode      *)
(* criterion, the end condition) is left open and chosen nondeterministically   *)
(* by the model; in the trace specification it is what was measured.            *)
EXTENDS EmdRules

(* ------------------------------ state machine ------------------------------ *)
CONSTANTS Rule, Par, MaxIter, MaxImf, Vals, Exts, Zers
VARIABLES pc, sig, modes, h, cur, n, nh, ext, rest
evars == <<pc, sig, modes, h, cur, n, nh, ext, rest>>

Sum(s) == LET F[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE F[j - 1] + s[j] IN F[Len(s)]

EInit == /\ pc = "start" /\ sig \in Vals /\ modes = <<>> /\ h = 0 /\ cur = 0 /\ n = 0 /\ nh = 0 /\ ext = -1 /\ rest = 0
StartMode == /\ pc = "start"
             /\ h' = sig - Sum(modes)
             /\ cur' \in Exts
             /\ n' = 0 /\ nh' = 0 /\ pc' = "sift"
             /\ UNCHANGED <<sig, modes, ext, rest>>
GiveUp == /\ pc = "sift" /\ n + 1 >= MaxIter
          /\ n' = n + 1 /\ pc' = "close"
          /\ UNCHANGED <<sig, modes, h, cur, nh, ext, rest>>
Trend == /\ pc = "sift" /\ n + 1 < MaxIter /\ cur <= 2
         /\ n' = n + 1 /\ ext' = cur /\ pc' = "trend"
         /\ UNCHANGED <<sig, modes, h, cur, nh, rest>>
Round == /\ pc = "sift" /\ n + 1 < MaxIter /\ cur > 2
         /\ \E mean \in Vals, e \in Exts, z \in Zers, crit \in BOOLEAN :
              /\ h' = h - mean
              /\ n' = n + 1
              /\ nh' = NextNh(Rule, n + 1, nh, e, z)
              /\ cur' = e
              /\ ext' = IF Rule = "fixe" THEN cur ELSE e
              /\ pc' = IF Stops(Rule, Par, n + 1, nh', IF crit THEN "y" ELSE "n", e, z) = "y" THEN "close" ELSE "sift"
         /\ UNCHANGED <<sig, modes, rest>>
(* the candidate becomes a component; the run ends, or the next one is started *)
Close == /\ pc \in {"close", "trend"}
         /\ modes' = Append(modes, h)
         /\ \E negligible \in BOOLEAN :
              /\ (sig - Sum(modes') = 0) => negligible
              /\ pc' = IF pc = "trend" \/ negligible \/ Len(modes') = MaxImf THEN "final" ELSE "start"
         /\ UNCHANGED <<sig, h, cur, n, nh, ext, rest>>
(* a last candidate with at most two extrema is remainder, not a mode *)
Final == /\ pc = "final"
         /\ modes' = IF ext <= 2 THEN SubSeq(modes, 1, Len(modes) - 1) ELSE modes
         /\ rest' = sig - Sum(modes')
         /\ pc' = "done"
         /\ UNCHANGED <<sig, h, cur, n, nh, ext>>
ENext == StartMode \/ GiveUp \/ Trend \/ Round \/ Close \/ Final
ESpec == EInit /\ [][ENext]_evars /\ WF_evars(ENext)
=============================================================================
