----------------------------- MODULE SplineTrace -----------------------------
(* C07: judges what the spline evaluation returned. *)
EXTENDS SplineJudge, Judge
=============================================================================
