--------------------------- MODULE WhitenoiseTrace ---------------------------
(* C14.  "check": components r.c (with scales), the verdicts returned.          *)
EXTENDS Whitenoise, Judge
If(c, s) == IF c THEN {} ELSE {s}
K(r) == CASE r.alpha = 100 -> Quantile.a10 [] r.alpha = 300 -> Quantile.a30 [] r.alpha = 500 -> Quantile.a50 [] r.alpha = 800 -> Quantile.a80 [] r.alpha = 900 -> Quantile.a90
          [] r.alpha = 950 -> Quantile.a95 [] r.alpha = 990 -> Quantile.a99 [] r.alpha = 999 -> Quantile.a999
Expected(r, j) == LET c == r.c[j]  ref == r.c[r.ref] IN
  Verdict(CASE r.test = "apriori" -> Prior(c, K(r))
            [] j = r.ref -> PostRef(ref, K(r))
            [] OTHER -> Post(c, ref, K(r)))
WBad(r) ==
  CASE r.kind = "check" ->
        If(r.keys = [j \in 1..Len(r.c) |-> j], "keys")
        \cup (IF Len(r.v) # Len(r.c) THEN {"verdict-missing"} ELSE If(\A j \in 1..Len(r.c) : r.v[j] \in Expected(r, j), "verdict:" \o r.test))
    [] r.kind = "period" -> If(WAbs(r.p * M(r.x) - 1000 * Len(r.x)) <= M(r.x), "mean-period")    \* p in 1/1000
                            \cup If(r.e = SqSum(r.x), "energy")
    [] r.kind = "none" -> If(r.none, "verdict-on-unusable-input:" \o r.why)
    [] r.kind = "rej" -> If(r.rejected, "accepted:" \o r.why)
    [] OTHER -> {r.kind}
=============================================================================
