----------------------------- MODULE NoiseTrace -----------------------------
(* C10.  "stream": a history with, in drawing order, the series that reached    *)
(* the trials (ids: equal number = equal series after dividing by the intended  *)
(* amplitude).  "amp": measured amplitudes relative to the intended one, 1/1000.*)
EXTENDS Noise, Judge
If(c, s) == IF c THEN {} ELSE {s}
StreamBad(r) ==
  LET nm == NRun(Start, r.h).names IN
  IF Len(nm) # Len(r.ids) THEN {"number-of-trials"}
  ELSE LET pairs == {<<nm[i], r.ids[i]>> : i \in 1..Len(nm)} IN
       (* one id per name, one name per id *)
       If(Cardinality(pairs) = Cardinality({x[1] : x \in pairs}), "not-reproducible")
       \cup If(Cardinality(pairs) = Cardinality({x[2] : x \in pairs}), "noise-reused")
       (* largest correlation (1/1000) between series of different name *)
       \cup If(r.corr <= 400, "noise-correlated")
AmpBad(r) ==
  IF r.k = "normal" THEN
       If(r.std \in 930..1070 /\ r.mean \in -70..70, "amplitude")
       \cup If(r.in1 \in 640..725 /\ r.in2 \in 935..972 /\ r.width > 4500, "not-normal")
  ELSE If(r.width \in 985..1001 /\ r.lo >= -501 /\ r.hi <= 501, "amplitude")
       \cup If(r.in1 \in 470..530 /\ r.in2 \in 770..830, "not-uniform")   \* within 1/4, 2/5 of the full width
NoiseBad(r) ==
  CASE r.kind = "stream" -> StreamBad(r)
    [] r.kind = "amp" -> AmpBad(r)
    [] r.kind = "gen" -> If(r.shape, "noise-shape") \cup If(r.rejected, "unknown-kind-accepted")
    [] r.kind = "zero" -> If(r.same, "zero-width-differs-from-plain")
    [] r.kind = "par" -> If(r.rows, "different-components") \cup If(r.diff <= 1000, "parallel-differs")  \* 1e-9 units: 1e-6
    [] OTHER -> {r.kind}
=============================================================================
