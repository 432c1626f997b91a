---------------------------- MODULE InstanceTrace ----------------------------
(* Record: steps (operations with what was observed) and, per distinct call,    *)
(* what a fresh object of that configuration returns (fresh).  Arrays are       *)
(* identified by numbers: equal number = equal contents.                        *)
EXTENDS Instance, Judge
Find(r, call) == LET I == {i \in 1..Len(r.fresh) : r.fresh[i].call = call} IN r.fresh[CHOOSE i \in I : TRUE]
(* trend = remainder, unless that is numerically zero: then the last mode *)
TrendOf(f) == IF f.k > 0 /\ f.zero THEN <<f.most, f.lastmode, f.k - 1>> ELSE <<f.modes, f.rest, f.k>>
StepBad(r, st, a) ==
  CASE a.op = "call" ->
        LET f == Find(r, <<st.cfg, a.g, a.m>>) IN
        (IF a.raised THEN {"call-failed"} ELSE IF a.ret = f.ret THEN {} ELSE {"depends-on-history"})
        \cup (IF a.same THEN {} ELSE {"input-modified"})
    [] a.op = "fail" -> IF a.raised THEN {} ELSE {"bad-call-accepted"}
    [] a.op = "res" ->
        IF st.last = None THEN (IF a.raised THEN {} ELSE {"result-before-first-call"})
        ELSE LET f == Find(r, st.last) IN
             IF a.raised THEN {"accessor-failed"} ELSE IF a.modes = f.modes /\ a.rest = f.rest THEN {} ELSE {"stale-or-changed-result"}
    [] a.op = "trend" ->
        IF st.last = None THEN (IF a.raised THEN {} ELSE {"result-before-first-call"})
        ELSE LET t == TrendOf(Find(r, st.last)) IN
             IF a.raised THEN {"accessor-failed"} ELSE IF a.modes = t[1] /\ a.rest = t[2] /\ a.k = t[3] THEN {} ELSE {"wrong-trend"}
    [] OTHER -> IF a.raised THEN {a.op \o "-failed"} ELSE {}
InsBad(r) ==
  IF r.kind # "hist" THEN {r.kind}
  ELSE LET S[k \in 0..Len(r.steps)] == IF k = 0 THEN New ELSE Apply(S[k - 1], r.steps[k])
       IN UNION {StepBad(r, S[k - 1], r.steps[k]) : k \in 1..Len(r.steps)}
=============================================================================
