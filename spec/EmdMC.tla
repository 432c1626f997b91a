------------------------------- MODULE EmdMC -------------------------------
EXTENDS Emd
CONSTANT Depth                     \* bound on the number of modes when there is no limit
V == -1..1
Bound == Len(modes) <= Depth /\ EAbs(h) <= 2
(* components plus remainder are the signal *)
Complete == pc = "done" => Sum(modes) + rest = sig
(* a positive limit k gives at most k modes *)
Limited == MaxImf > 0 => Len(modes) <= MaxImf
(* sifting never goes beyond the maximum; fixed rules stop when they should *)
Sifting == /\ n <= MaxIter
           /\ (pc = "close" /\ n < MaxIter /\ Rule = "fixe") => n = Par
           /\ (pc = "close" /\ n < MaxIter /\ Rule = "fixeh") => n >= Par + 1 /\ nh = Par
           /\ (Rule = "fixe" /\ pc = "sift") => n < Par
           /\ (Rule = "fixeh" /\ pc = "sift") => nh < Par
(* whatever is not enough to sift ends the run *)
TrendEnds == [][pc = "trend" => pc' = "final"]_evars
NoModeAfterEnd == [][pc = "done" => UNCHANGED evars]_evars
Terminates == <>(pc = "done")
=============================================================================
