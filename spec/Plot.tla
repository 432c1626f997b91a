-------------------------------- MODULE Plot --------------------------------
(* What a plot must show.  Data are names: components of the attached object    *)
(* <<"obj", k>>, passed ones <<"arg", k>>, remainders <<"objres", 0>>,          *)
(* <<"argres", 0>>; time axes "index" or "given".                               *)
EXTENDS Integers, Sequences, TLC
Comps(who, k) == [j \in 1..k |-> <<who, j>>]
(* a: [obj: number of components of the attached object (0: none attached), arg: number passed (0: not passed),    *)
(*     res: remainder passed, inc: remainder requested, t: time passed, op: "imfs" | "freq"]                         *)
NoData(a) == a.obj = 0 /\ a.arg = 0
NoRest(a) == a.op = "imfs" /\ a.inc /\ ~a.res /\ a.obj = 0
Refused(a) == NoData(a) \/ NoRest(a)
Shown(a) == (IF a.arg > 0 THEN Comps("arg", a.arg) ELSE Comps("obj", a.obj))
            \o (IF a.op = "imfs" /\ a.inc THEN << IF a.res THEN <<"argres", 0>> ELSE <<"objres", 0>> >> ELSE <<>>)
Axis(a) == IF a.t THEN "given" ELSE "index"
=============================================================================
