------------------------------ MODULE JitTrace ------------------------------
(* C18: the compiled variant.  Its building blocks and whole runs are judged by *)
(* the same specifications as those of the reference implementation; on top of  *)
(* that a "pair" record holds its components next to those of the reference.    *)
EXTENDS Ledger, Judge
X == INSTANCE ExtremaTrace WITH Bad <- Bad, jlane <- jlane, jpos <- jpos
Par == INSTANCE ParabolaTrace WITH Bad <- Bad, jlane <- jlane, jpos <- jpos
Mir == INSTANCE MirrorTrace WITH Bad <- Bad, jlane <- jlane, jpos <- jpos
Spl == INSTANCE SplineJudge
Sift == INSTANCE SiftTrace WITH Bad <- Bad, jlane <- jlane, jpos <- jpos
Stop == INSTANCE StopTrace WITH Bad <- Bad, jlane <- jlane, jpos <- jpos
If(c, s) == IF c THEN {} ELSE {s}
RowTol == 16384                 \* 2^14 units = 1.5e-11 of the largest magnitude
JAbs(a) == IF a < 0 THEN -a ELSE a
(* limbs <<hi, lo>>, hi in units 2^-25 of the largest magnitude.  tol in those units *)
Close(x, y, tol) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : JAbs(x[k][1] - y[k][1]) <= tol
PairBad(r) ==
  IF ~r.finite THEN {"not-finite"}
  ELSE IF ~r.shape THEN {"shape"}
  ELSE If(Len(r.got) = Len(r.want), "number-of-components")
     \cup If(Len(r.got) # Len(r.want) \/ \A j \in 1..Len(r.got) : Close(r.got[j], r.want[j], 2), "components")
     \cup If(AddsUp(r.got, r.s, RowTol + r.slack), "incomplete")
     \cup If(r.same, "input-modified")
(* the object: modes = all but the last component, remainder = the last one; the accessor gives the trend   *)
ObjBad(r) == If(r.stored, "stored") \cup If(r.accessor, "accessor") \cup If(r.again, "second-call")
EnsBad(r) == If(Len(r.got) = Len(r.want) /\ \A j \in 1..Len(r.got) : Close(r.got[j], r.want[j], 2), "ensemble-differs")
JitBad(r) ==
  CASE r.kind = "simple" -> X!ExtBad(r)
    [] r.kind = "parabol" -> Par!ParBad(r)
    [] r.kind = "mirror" -> Mir!MirrorBad(r)
    [] r.kind = "spline" -> Spl!SplBad(r)
    [] r.kind = "crit" -> Sift!SiftBad(r)
    [] r.kind = "end" -> Stop!StopBad(r)
    [] r.kind = "run" -> Sift!SiftBad(r) \cup Stop!StopBad(r)
    [] r.kind = "pair" -> PairBad(r)
    [] r.kind = "object" -> ObjBad(r)
    [] r.kind = "ensemble" -> EnsBad(r)
    [] OTHER -> {r.kind}
=============================================================================
