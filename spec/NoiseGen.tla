------------------------------ MODULE NoiseGen ------------------------------
EXTENDS Noise, Json
CONSTANTS Seeds, Procs, Ns, Depth
VARIABLES st, hist
Acts == [op : {"seed"}, k : Seeds] \cup [op : {"kind"}, v : {"normal", "uniform"}] \cup [op : {"call"}, p : Procs, n : Ns] \cup [op : {"copy"}]
Init == st = Start /\ hist = <<>>
Useful(a) == /\ hist # <<>> => (a.op # "call" => hist[Len(hist)].op # a.op)
             /\ Len(hist) = Depth - 1 => a.op = "call"
             /\ a.op = "kind" => a.v # st.kind
Next == Len(hist) < Depth /\ \E a \in Acts : Useful(a) /\ hist' = Append(hist, a) /\ st' = NApply(st, a)
Spec == Init /\ [][Next]_<<st, hist>>
(* without reseeding nothing is ever drawn twice *)
NoReuse == (\A i \in 1..Len(hist) : hist[i].op # "seed") => Cardinality({st.names[i] : i \in 1..Len(st.names)}) = Len(st.names)
(* right after equal seeds, equal draws *)
Repro == \A i, j \in 1..Len(hist) :
   (i < j /\ hist[i].op = "seed" /\ hist[j].op = "seed" /\ hist[i].k = hist[j].k /\ i < Len(hist) /\ j < Len(hist)
     /\ hist[i + 1].op = "call" /\ hist[j + 1].op = "call" /\ hist[i + 1].n = hist[j + 1].n
     /\ NRun(Start, SubSeq(hist, 1, i)).kind = NRun(Start, SubSeq(hist, 1, j)).kind)
   => LET A == NRun(Start, SubSeq(hist, 1, i))  A1 == NApply(A, hist[i + 1])
          B == NRun(Start, SubSeq(hist, 1, j))  B1 == NApply(B, hist[j + 1])
      IN SubSeq(A1.names, Len(A.names) + 1, Len(A1.names)) = SubSeq(B1.names, Len(B.names) + 1, Len(B1.names))
Calls(h) == Cardinality({i \in 1..Len(h) : h[i].op = "call"})
Emit == Len(hist) = Depth /\ Calls(hist) >= 2 => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
