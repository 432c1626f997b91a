----------------------------- MODULE InstanceGen -----------------------------
(* Generates histories (exhaustively in breadth first search, or at random in   *)
(* simulation mode) and checks the two wordings of the state against each other.*)
EXTENDS Instance, Json
CONSTANTS Sigs, Ms, Cfgs, Hows, Depth, Trends
VARIABLES st, hist
Acts == [op : {"call"}, g : Sigs, m : Ms] \cup [op : {"fail"}, how : Hows] \cup [op : {"cfg"}, c : Cfgs]
        \cup [op : {"res", "mutin", "mutout", "pickle", "copy"} \cup (IF Trends THEN {"trend"} ELSE {})]
Init == st = New /\ hist = <<>>
Idle(o) == o \in {"mutin", "mutout", "pickle", "copy", "cfg"}
Useful(a) == \* prune histories that differ only by repeated idle steps
  /\ hist # <<>> => LET l == hist[Len(hist)] IN ~(Idle(a.op) /\ l.op = a.op)
  /\ Len(hist) = Depth - 1 => a.op \in {"res", "trend"}
Next == Len(hist) < Depth /\ \E a \in Acts : Useful(a) /\ hist' = Append(hist, a) /\ st' = Apply(st, a)
Spec == Init /\ [][Next]_<<st, hist>>
Same == st.last = LastCall(hist) /\ st = Run(New, hist)
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
