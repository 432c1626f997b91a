------------------------------- MODULE BemdMC -------------------------------
(* Decomposition of an image by the two dimensional variants: sifting round by  *)
(* round, row after row, limit, running out of extrema, remainder, against      *)
(* Rounds and RowsByRule of ImageRules (what recorded runs are judged by).      *)
EXTENDS ImageRules, TLC
CONSTANTS Pars, Caps, Limits, MaxRows
VARIABLES which, rule, par, cap, lim,   \* the call
          n, nh, few, c, stop,          \* sifting of the current row
          rows,                         \* finished rows (their records)
          phase                         \* "sift" | "done"
vars == <<which, rule, par, cap, lim, n, nh, few, c, stop, rows, phase>>
call == <<which, rule, par, cap, lim>>
Meas(b) == [me |-> IF b THEN -1 ELSE 1, ch |-> 1, ab |-> 1, ms |-> 1]
Init == /\ which \in {"EMD2D", "BEMD"} /\ rule \in {"fixe", "fixeh", "default"} /\ par \in Pars /\ cap \in Caps /\ lim \in Limits
        /\ n = 0 /\ nh = 0 /\ few = <<>> /\ c = <<>> /\ stop = "no" /\ rows = <<>> /\ phase = "sift"
Going == phase = "sift" /\ stop = "no" /\ n < cap
TooFew == Going /\ few' = Append(few, TRUE) /\ stop' = "few" /\ UNCHANGED <<call, n, nh, c, rows, phase>>
Round == /\ Going
         /\ few' = Append(few, FALSE) /\ n' = n + 1
         /\ \E ok \in BOOLEAN :
              /\ c' = Append(c, Meas(ok))
              /\ nh' = IF rule = "fixeh" /\ n' > 1 THEN (IF ok THEN nh + 1 ELSE 0) ELSE nh
              /\ stop' = LET s == CASE rule = "fixe" -> n' >= par + 1
                                    [] rule = "fixeh" -> n' > 1 /\ nh' >= par
                                    [] OTHER -> ok
                         IN IF s THEN "rule" ELSE "no"
         /\ UNCHANGED <<call, rows, phase>>
Stopped == phase = "sift" /\ (stop # "no" \/ n = cap)
(* what the recorder would write down for a row of n rounds *)
Rec(e) == [few |-> few, c |-> c, hit |-> [k \in 1..(Len(c) + 1) |-> k = n + 1], end |-> e]
(* a row that never was sifted is all that is left *)
Close == /\ Stopped
         /\ \E e \in (IF n = 0 THEN {"y"} ELSE {"y", "n"}) :
              /\ rows' = Append(rows, Rec(e))
              /\ phase' = IF e = "y" \/ (lim > 0 /\ Len(rows') >= lim) \/ (which = "EMD2D" /\ stop = "few") THEN "done" ELSE "sift"
         /\ Len(rows) < MaxRows
         /\ n' = 0 /\ nh' = 0 /\ few' = <<>> /\ c' = <<>> /\ stop' = "no" /\ UNCHANGED call
Next == TooFew \/ Round \/ Close
Spec == Init /\ [][Next]_vars
ByRule == Stopped => {v[1] : v \in Rounds(which, rule, par, cap, [few |-> few, c |-> c])} = {n}
Capped == n <= cap
Good(k) == c[k].me = -1
(* direct reading of the rules *)
Direct == Stopped /\ stop = "rule" =>
  CASE rule = "fixe" -> n = par + 1
    [] rule = "fixeh" -> n > par /\ (\A k \in (n - par + 1)..n : Good(k)) /\ \A m \in 2..(n - 1) : \E k \in (m - par + 1)..m : k < 2 \/ ~Good(k)
    [] OTHER -> Good(n) /\ \A k \in 1..(n - 1) : ~Good(k)
(* the whole run as the recorder sees it: rows that make up the image have no remainder, others are followed by it *)
Run(rs, l) == [which |-> which, rule |-> rule, par |-> par, cap |-> cap, limit |-> l, modes |-> rs,
               rest |-> [k \in 1..Len(rs) |-> rs[k].end], lastisrest |-> TRUE]
RestRow == [few |-> <<TRUE>>, c |-> <<>>, hit |-> <<TRUE>>, end |-> "y"]
Output == IF rows[Len(rows)].end = "y" THEN rows ELSE Append(rows, RestRow)
RunByRule == phase = "done" => RowsByRule(Run(Output, lim))
(* and a run cut short by one row, or with a wrong number of rounds, is not accepted *)
WrongRounds(j) == [rows EXCEPT ![j].hit = [k \in 1..Len(rows[j].hit) |-> k # 1 /\ rows[j].hit[k - 1]]]
CutShort == phase = "done" /\ rows[Len(rows)].end = "y" /\ Len(rows) > 1 /\ lim <= 0 =>
              ~RowsByRule(Run(SubSeq(rows, 1, Len(rows) - 1), lim))
OffByOne == phase = "done" /\ rows[Len(rows)].end = "y" => \A j \in 1..Len(rows) : ~RowsByRule(Run(WrongRounds(j), lim))
=============================================================================
