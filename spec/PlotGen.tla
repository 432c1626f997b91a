------------------------------- MODULE PlotGen -------------------------------
(* All argument combinations of a sequence of plot calls on one object.         *)
EXTENDS Plot, Json
CONSTANTS MaxComps, Depth
VARIABLES obj, hist
Calls == [arg : {0, 1, 2, MaxComps}, res : BOOLEAN, inc : BOOLEAN, t : BOOLEAN, op : {"imfs"}]
         \cup [arg : {0, 1, 2, MaxComps}, res : {FALSE}, inc : {FALSE}, t : {TRUE}, op : {"freq"}]
With(c) == [arg |-> c.arg, res |-> c.res, inc |-> c.inc, t |-> c.t, op |-> c.op, obj |-> obj]
Init == obj \in {0, 1, 2, MaxComps} /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in Calls : hist' = Append(hist, With(c)) /\ UNCHANGED obj
Spec == Init /\ [][Next]_<<obj, hist>>
(* every accepted call shows at least one row, and at most one remainder, at the bottom *)
Sane == \A i \in 1..Len(hist) : ~Refused(hist[i]) =>
          LET s == Shown(hist[i]) IN Len(s) >= 1 /\ \A j \in 1..Len(s) : s[j][2] = 0 => j = Len(s)
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
