------------------------------- MODULE Ceemdan -------------------------------
(* CEEMDAN as a staged protocol.  Signals are integers (only linear structure   *)
(* matters for the bookkeeping); the local mean of a stage is arbitrary.        *)
EXTENDS CeemdanRules, TLC
CONSTANTS Trials, MaxModes, Limit, HardLimit, Vals
VARIABLES pc, sig, nm, comps, prev, stage, todo, used, rest
cvars == <<pc, sig, nm, comps, prev, stage, todo, used, rest>>
CSum(s) == LET F[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE F[j - 1] + s[j] IN F[Len(s)]
(* nm[t]: how many modes the noise of trial t has; zero: a unit noise series always has one *)
CInit == /\ pc = "noise" /\ sig \in Vals /\ nm \in [1..Trials -> 1..MaxModes]
         /\ comps = <<>> /\ prev = 0 /\ stage = 0 /\ todo = {} /\ used = {} /\ rest = 0
Noise == /\ pc = "noise" /\ pc' = "stage" /\ stage' = 1 /\ prev' = sig /\ todo' = 1..Trials
         /\ UNCHANGED <<sig, nm, comps, used, rest>>
(* trial t of the current stage: remainder plus its noise mode of this stage, if it has one *)
Trial(t) == /\ pc = "stage" /\ t \in todo
            /\ todo' = todo \ {t}
            /\ used' = used \cup {<<stage, t, IF nm[t] >= stage THEN stage ELSE 0>>}
            /\ UNCHANGED <<pc, sig, nm, comps, prev, stage, rest>>
(* all trials in: the mean of their local means is the next remainder, the difference the component *)
Component == /\ pc = "stage" /\ todo = {}
             /\ \E m \in Vals : prev' = m /\ comps' = Append(comps, prev - m)
             /\ pc' = "test"
             /\ UNCHANGED <<sig, nm, stage, todo, used, rest>>
(* what is left: limit reached, no further modes, below the thresholds, or go on *)
Test == /\ pc = "test"
        /\ \E over \in {"y", "n"} :
             IF CStops(Limit, Len(comps), over) = "y" \/ stage > HardLimit
             THEN /\ pc' = "done" /\ rest' = sig - CSum(comps) /\ UNCHANGED <<stage, todo>>
             ELSE /\ pc' = "stage" /\ stage' = stage + 1 /\ todo' = 1..Trials /\ UNCHANGED rest
        /\ UNCHANGED <<sig, nm, comps, prev, used>>
CNext == Noise \/ Component \/ Test \/ \E t \in 1..Trials : Trial(t)
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)
=============================================================================
