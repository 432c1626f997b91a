------------------------------ MODULE Ensemble ------------------------------
(* EEMD: trials handed out to workers, finished in any order, grouped by order. *)
(* A noise series is identified by its position in the random stream.           *)
EXTENDS EnsembleRules

(* ------------------------------ state machine ------------------------------ *)
CONSTANTS Trials, Workers, Calls, MaxModes
VARIABLES call, pos, next, work, out, groups, shape, sep, used
ens == <<call, pos, next, work, out, groups, shape, sep, used>>
Idle == <<>>
(* what the decomposition of noise series z yields: its modes are <<z, k>>, its trend <<z, 0>> *)
Trial(z) == [m |-> [k \in 1..shape[z] |-> <<z, k>>], tr |-> IF sep THEN <<<<z, 0>>>> ELSE <<>>]
Init == /\ call = 1 /\ pos = 0 /\ next = 1
        /\ work = [w \in 1..Workers |-> Idle]
        /\ out = [t \in 1..Trials |-> 0]
        /\ groups = <<>> /\ used = {}
        /\ sep \in BOOLEAN
        /\ shape \in [1..(Trials * Calls) -> (IF sep THEN 0 ELSE 1)..MaxModes]
(* noise is drawn by the caller, trial after trial; a worker gets the series, never the generator *)
Dispatch(w) == /\ next <= Trials /\ work[w] = Idle
               /\ pos' = pos + 1 /\ next' = next + 1
               /\ work' = [work EXCEPT ![w] = <<next, pos + 1>>]
               /\ used' = used \cup {<<call, next, pos + 1>>}
               /\ UNCHANGED <<call, out, groups, shape, sep>>
Finish(w) == /\ work[w] # Idle
             /\ out' = [out EXCEPT ![work[w][1]] = work[w][2]]
             /\ work' = [work EXCEPT ![w] = Idle]
             /\ UNCHANGED <<call, pos, next, groups, shape, sep, used>>
(* fold over the trials in order *)
Fold == LET G[t \in 0..Trials] ==
              IF t = 0 THEN [b |-> <<>>, tail |-> <<>>]
              ELSE LET x == Trial(out[t])  g == G[t - 1]
                       n == IF Len(x.m) > Len(g.b) THEN Len(x.m) ELSE Len(g.b)
                   IN [b |-> [k \in 1..n |-> (IF k <= Len(g.b) THEN g.b[k] ELSE <<>>) \o (IF k <= Len(x.m) THEN <<x.m[k]>> ELSE <<>>)],
                       tail |-> g.tail \o x.tr]
        IN IF G[Trials].tail = <<>> THEN G[Trials].b ELSE Append(G[Trials].b, G[Trials].tail)
Collect == /\ next > Trials /\ \A t \in 1..Trials : out[t] # 0
           /\ groups' = Fold
           /\ IF call < Calls THEN call' = call + 1 /\ next' = 1 /\ out' = [t \in 1..Trials |-> 0]
              ELSE call' = call + 1 /\ next' = Trials + 2 /\ UNCHANGED out
           /\ UNCHANGED <<pos, work, shape, sep, used>>
Next == (call <= Calls /\ (\E w \in 1..Workers : Dispatch(w) \/ Finish(w))) \/ (call <= Calls /\ Collect)
Spec == Init /\ [][Next]_ens /\ WF_ens(Next)
=============================================================================
