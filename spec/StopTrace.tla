------------------------------ MODULE StopTrace ------------------------------
(* C03: the decomposition ends exactly when it should.                          *)
(* r.modes[k].d: end measurements after the k-th returned mode; r.cand: the     *)
(* sifting of what is left after the last one.                                  *)
EXTENDS EmdRules, Judge
Outs(r, m) == Outcomes(r.rule, r.par, r.maxiter, -1, m)
Limit(r, k) == k = r.maximf
StopBad(r) ==
  CASE r.kind = "run" ->
       LET K == Len(r.modes)
           end(k) == EndCond(r.modes[k].d)
           (* finished right after the K-th mode, which was worth keeping *)
           A == K >= 1 /\ (end(K) # "n" \/ Limit(r, K)) /\ \E o \in Outs(r, r.modes[K]) : o[1] = "close" /\ o[3] > 2
           (* went on, and the next candidate was a trend or a last one with at most two extrema *)
           B == /\ K = 0 \/ (end(K) # "y" /\ ~Limit(r, K))
                /\ \E o \in Outs(r, r.cand) :
                     \/ o[1] = "trend"
                     \/ o[1] = "close" /\ o[3] <= 2 /\ o[2] \in 1..Len(r.cand.rounds)
                        /\ (EndCond(r.cand.rounds[o[2]].d) # "n" \/ Limit(r, K + 1))
                     \/ o[1] = "close" /\ o[2] = 0
       IN (IF \A k \in 1..(K - 1) : end(k) # "y" THEN {} ELSE {"went-on-after-negligible-rest"})
     \cup (IF r.maximf > 0 => K <= r.maximf THEN {} ELSE {"more-than-limit"})
     \cup (IF \A k \in 1..K : \E o \in Outs(r, r.modes[k]) : o[1] # "trend" THEN {} ELSE {"went-on-after-trend"})
     \cup (IF A \/ B THEN {} ELSE {"wrong-end"})
     \cup (IF r.total = K + (IF r.rest THEN 1 ELSE 0) THEN {} ELSE {"count"})
    [] r.kind = "end" ->
        LET w == EndCond(r.d) IN IF w = "e" \/ r.got = (w = "y") THEN {} ELSE {"end-condition"}
    [] OTHER -> {r.kind}
=============================================================================
