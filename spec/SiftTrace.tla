------------------------------ MODULE SiftTrace ------------------------------
(* C02: every returned mode is what the configured stopping rule yields.        *)
EXTENDS EmdRules, Judge
ModeOk(r, m) == \E o \in Outcomes(r.rule, r.par, r.maxiter, -1, m) :
                  o[1] = "close" /\ o[2] >= 1 /\ o[2] <= Len(m.rounds) /\ m.rounds[o[2]].hit
SiftBad(r) ==
  CASE r.kind = "run" ->
        (IF \A k \in 1..Len(r.modes) : ModeOk(r, r.modes[k]) THEN {} ELSE {"mode-not-by-rule"})
    [] r.kind = "crit" ->
        LET w == Criterion(r.c) IN IF w = "e" \/ r.got = (w = "y") THEN {} ELSE {"criterion"}
    [] OTHER -> {r.kind}
=============================================================================
