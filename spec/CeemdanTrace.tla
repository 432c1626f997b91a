---------------------------- MODULE CeemdanTrace ----------------------------
(* C12.  r.noise[t]: integer modes of the noise of trial t; r.en / 16: epsilon; *)
(* r.st[k]: stage k: x = remainder before it (1/1024 of its largest magnitude), *)
(* y = remainder after it (1/16384 of the same).                                *)
EXTENDS CeemdanStage, Judge
If(c, s) == IF c THEN {} ELSE {s}
(* 4 * expected added term in 1/16384:  eps * std(x) * W,  W4 = 4 W in 1/1024   *)
Added(r, x, W4, i) == (((r.en * NStd(x)) \div Len(x)) * W4[i]) \div 1024
StageOk(r, k) ==
  LET s == r.st[k]
      n == Len(s.x)
      z == Mean(r.noise, k, r.beta, n)
      z4 == P4(z)
      w4 == IF k = 1 THEN TLCEval([i \in 1..n |-> z4[i] - 4 * z[i]]) ELSE z4   \* first stage averages modes, later ones local means
      px == P4(s.x)
  IN \A i \in 1..n : LET a == Added(r, s.x, w4, i) IN QAbs(4 * s.y[i] - 16 * px[i] - a) <= 300 + QAbs(a) \div 150
CeeBad(r) ==
  CASE r.kind = "stages" ->
        If(r.noises = r.trials /\ r.fresh, "one-noise-per-trial")
        \cup UNION {If(StageOk(r, k), IF k = 1 THEN "first-stage" ELSE "later-stage") : k \in 1..Len(r.st)}
        \cup If(r.timed, "time-not-passed-on")
    [] r.kind = "amp" ->
        IF r.k = "normal" THEN If(r.std \in 940..1060 /\ r.mean \in -60..60 /\ r.in1 \in 645..720, "amplitude")
        ELSE If(r.width \in 985..1001 /\ r.lo >= -501 /\ r.hi <= 501 /\ r.in1 \in 470..530, "amplitude")
    [] r.kind = "options" ->
        If(r.had = (IF r.trials < 0 THEN 100 ELSE r.trials), "number-of-trials") \cup If(r.same, "options-not-passed-on")
    [] OTHER -> {r.kind}
=============================================================================
