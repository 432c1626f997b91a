---------------------------- MODULE ExtremaScan ----------------------------
EXTENDS Extrema
(* Operational definition: scan from left to right.                             *)
VARIABLES sig,        \* the signal under scan
          pos,        \* next sample to look at
          dir,        \* sign of the last non-zero step, 0 before the first one
          flat,       \* first sample of the current flat run
          maxs, mins, \* extrema found so far, in order
          zers, zrun  \* zero crossings so far; start of the current run of zeros or -1
vars == <<sig, pos, dir, flat, maxs, mins, zers, zrun>>

ScanInit(s) == /\ sig = s /\ pos = 1 /\ dir = 0 /\ flat = 0
               /\ maxs = <<>> /\ mins = <<>> /\ zers = <<>>
               /\ zrun = IF At(s, 0) = 0 THEN 0 ELSE -1

ScanStep ==
  /\ pos <= Last0(sig)
  /\ LET p == At(sig, pos - 1)  c == At(sig, pos)  step == Sign(c - p)
         turn == step # 0 /\ dir # 0 /\ step # dir
         ext  == Mid(flat, pos - 1)
     IN /\ dir' = IF step # 0 THEN step ELSE dir
        /\ flat' = IF step # 0 THEN pos ELSE flat
        /\ maxs' = IF turn /\ dir = 1 THEN Append(maxs, ext) ELSE maxs
        /\ mins' = IF turn /\ dir = -1 THEN Append(mins, ext) ELSE mins
        /\ zrun' = IF c = 0 THEN (IF zrun >= 0 THEN zrun ELSE pos) ELSE -1
        /\ zers' = IF p = 0 /\ c # 0 THEN Append(zers, Mid(zrun, pos - 1))
                   ELSE IF p * c < 0 THEN Append(zers, pos - 1) ELSE zers
  /\ pos' = pos + 1
  /\ UNCHANGED sig

ScanEnd ==      \* a run of zeros may touch the end; a plateau there is no extremum
  /\ pos = Last0(sig) + 1
  /\ zers' = IF zrun >= 0 THEN Append(zers, Mid(zrun, Last0(sig))) ELSE zers
  /\ pos' = pos + 1
  /\ UNCHANGED <<sig, dir, flat, maxs, mins, zrun>>

ScanNext == ScanStep \/ ScanEnd
Done == pos = Last0(sig) + 2

(* ---- properties of the definitions, checked exhaustively ---- *)
Agree == Done => /\ maxs = Asc(Maxima(sig)) /\ mins = Asc(Minima(sig)) /\ zers = Asc(Crossings(sig))
Alternate == \A k \in 1..(Len(maxs) + Len(mins)) :
               LET all == Asc({maxs[j] : j \in 1..Len(maxs)} \cup {mins[j] : j \in 1..Len(mins)})
               IN /\ Len(all) = Len(maxs) + Len(mins)
                  /\ (k < Len(all) => ((all[k] \in {maxs[j] : j \in 1..Len(maxs)}) # (all[k+1] \in {maxs[j] : j \in 1..Len(maxs)})))
Duality == Done => Maxima(Neg(sig)) = Minima(sig)
(* time reversal maps extrema to extrema; only the tie of even runs may move by one *)
Reversal == Done => Cardinality(Maxima(Rev(sig))) = Cardinality(Maxima(sig))
NotAtEnds == \A k \in 1..Len(maxs) : maxs[k] > 0 /\ maxs[k] < Last0(sig)
(* between two neighbouring samples of opposite sign there is exactly one crossing *)
=============================================================================
