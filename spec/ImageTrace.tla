----------------------------- MODULE ImageTrace -----------------------------
(* C19, C20, C21: judges the two dimensional variants.                                    *)
EXTENDS Grid, ImageRules, Ledger, Judge
If(c, s) == IF c THEN {} ELSE {s}
RowTol == 16384
(* reported list of zero based positions = set, without repetition *)
Lists(l, S) == Len(l) = Cardinality(S) /\ {<<l[k][1] + 1, l[k][2] + 1>> : k \in 1..Len(l)} = S
RunBad(r) == If(RowsByRule(r), "components-not-by-rule")
LedBad(r) ==
  IF ~r.shape THEN {"shape"}
  ELSE IF ~r.finite THEN {"not-finite"}
  ELSE If(AddsUp(r.rows, r.s, RowTol + r.slack), "incomplete") \cup If(r.same, "input-modified")
       \cup If(Len(r.rows) >= 1 /\ (r.limit <= 0 \/ Len(r.rows) <= r.limit + 1), "too-many-components")
ImageBad(r) ==
  CASE r.kind = "ext2" -> If(Lists(r.omax, LocMax(r.img)), "maxima") \cup If(Lists(r.omin, LocMin(r.img)), "minima") \cup If(r.same, "input-modified")
    [] r.kind = "tile" -> If(r.big = Tile(r.img), "extension") \cup If(r.same, "input-modified")
    [] r.kind = "peaks" -> If(Lists(r.omax, Peaks(r.img, r.h)), "peaks") \cup If(Lists(r.omin, Pits(r.img, r.h)), "pits") \cup If(r.same, "input-modified")
    [] r.kind = "env2" -> If(r.shape, "shape") \cup If(r.miss <= 64, "envelope-misses-extrema") \cup If(r.lin <= 64, "not-the-interpolant")
    [] r.kind = "proto" -> LET w == Proto(r.which, r.c) IN If(w = "e" \/ r.got = (w = "y"), "criterion")
    [] r.kind = "end2" -> If(r.w = "e" \/ r.got = (r.w = "y"), "end-condition")
    [] r.kind = "shift2" -> If(r.same, "count-depends-on-offset") \cup If(\A j \in 1..Len(r.dev) : r.dev[j] <= 16, "offset-not-in-remainder")
    [] r.kind = "ledger" -> LedBad(r)
    [] r.kind = "run2" -> RunBad(r)
    [] OTHER -> {r.kind}
=============================================================================
