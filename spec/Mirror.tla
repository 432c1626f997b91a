------------------------------- MODULE Mirror -------------------------------
(* Boundary extension.  A knot is <<position, value>>; hi / lo are the maxima   *)
(* and minima in order (alternating, three or more together); the signal runs   *)
(* from a to b with end values sa, sb; nb knots are to be mirrored per side.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop1(s) == SubSeq(s, 2, Len(s))
Refl(c, s) == TLCEval([k \in 1..Len(s) |-> <<2 * c - s[Len(s) + 1 - k][1], s[Len(s) + 1 - k][2]>>])
NegV(s) == TLCEval([k \in 1..Len(s) |-> <<s[k][1], -s[k][2]>>])
RevT(s) == TLCEval([k \in 1..Len(s) |-> <<-s[Len(s) + 1 - k][1], s[Len(s) + 1 - k][2]>>])

(* Left side when the first extremum is a maximum.  Returns <<hi part, lo part>>. *)
(* sample mode *)
LeftMaxS(hi, lo, a, sa, nb) ==
  LET c == hi[1][1]
      hx == Refl(c, Take(Drop1(hi), nb))
      lx == Refl(c, Take(lo, nb))
  IN IF sa > lo[1][2]
     THEN IF hx # <<>> /\ lx # <<>> /\ hx[1][1] <= a /\ lx[1][1] <= a
          THEN <<hx, lx>>                                     \* about the first extremum
          ELSE <<Refl(a, Take(hi, nb)), Refl(a, Take(lo, nb))>> \* would not reach the end: about the end
     ELSE <<Refl(a, Take(hi, nb)), Refl(a, <<<<a, sa>>>> \o Take(lo, nb - 1))>>
(* parabolic mode: the nearest opposite extremum itself has to reach past the end *)
LeftMaxP(hi, lo, a, sa, nb) ==
  LET c == hi[1][1]
  IN IF sa > lo[1][2] /\ lo[1][1] - c > c - a
     THEN <<Refl(c, Take(Drop1(hi), nb)), Refl(c, Take(lo, nb))>>
     ELSE <<Refl(a, Take(hi, nb)), Refl(a, <<<<a, sa>>>> \o Take(lo, nb - 1))>>
LeftMax(mode, hi, lo, a, sa, nb) == IF mode = "parabol" THEN LeftMaxP(hi, lo, a, sa, nb) ELSE LeftMaxS(hi, lo, a, sa, nb)
(* first extremum is a minimum: the same upside down *)
Left(mode, hi, lo, a, sa, nb) ==
  IF hi[1][1] < lo[1][1] THEN LeftMax(mode, hi, lo, a, sa, nb)
  ELSE LET r == LeftMax(mode, NegV(lo), NegV(hi), a, -sa, nb) IN <<NegV(r[2]), NegV(r[1])>>
(* right side: the same with time reversed *)
Right(mode, hi, lo, b, sb, nb) ==
  LET r == Left(mode, RevT(hi), RevT(lo), -b, sb, nb) IN <<RevT(r[1]), RevT(r[2])>>

Extend(mode, hi, lo, a, sa, b, sb, nb) ==
  LET l == Left(mode, hi, lo, a, sa, nb)
      r == Right(mode, hi, lo, b, sb, nb)
  IN <<l[1] \o hi \o r[1], l[2] \o lo \o r[2]>>

(* ---- what the envelope construction needs (checked by MirrorMC) ---- *)
Increasing(k) == \A j \in 1..(Len(k) - 1) : k[j][1] < k[j + 1][1]
Spans(k, a, b) == k[1][1] <= a /\ k[Len(k)][1] >= b
=============================================================================
