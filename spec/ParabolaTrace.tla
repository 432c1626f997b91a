---------------------------- MODULE ParabolaTrace ----------------------------
(* Record: integer times t, integer samples s, reported extrema as sequences of *)
(* <<position, value>> in fixed point: P units per time step, V per sample unit.*)
EXTENDS Parabola, Judge
Abs(a) == IF a < 0 THEN -a ELSE a
P == 256
V == 256
(* q = n/d up to `tol' units, all quantities small enough for 32 bit *)
Near(qv, n, d, unit, tol) == Abs(qv * d - n * unit) <= tol * Abs(d)

Match(x, e) == /\ Near(e[1] - x.t0 * P, VN(x), VD(x), P, 2)
               /\ Near(e[2] - x.s0 * V, ValN(x), ValD(x), V, 3)
(* The reported list must be a subsequence of the candidates that contains all  *)
(* compulsory ones.  `need' and `may' are sets of indices into cand.            *)
Explains(cand, need, may, rep) ==
  LET Emb[i \in 0..Len(cand), j \in 0..Len(rep)] ==
        IF i = 0 THEN j = 0
        ELSE \/ i \notin need /\ Emb[i - 1, j]
             \/ i \in may /\ j > 0 /\ Match(cand[i], rep[j]) /\ Emb[i - 1, j - 1]
  IN Emb[Len(cand), Len(rep)]
ParBad(r) ==
  IF r.kind # "parabol" THEN {r.kind}
  ELSE LET c == Triples(r.t, r.s)
           in == {j \in 1..Len(c) : InCell(c[j])}
           (* a vertex on the cell border is decided by rounding unless the arithmetic is exact *)
           (* (both gaps equal and a power of two): both answers accepted                        *)
           brd == {j \in 1..Len(c) : OnBorder(c[j]) /\ ~(c[j].hl = c[j].hr /\ c[j].hl \in {1, 2, 4, 8, 16})}
           need == in \ brd
           may == in \cup brd
           up == {j \in 1..Len(c) : Curv(c[j]) < 0}
           dn == {j \in 1..Len(c) : Curv(c[j]) > 0}
       IN (IF Explains(c, need \cap up, may \cap up, r.max) THEN {} ELSE {"maxima"})
     \cup (IF Explains(c, need \cap dn, may \cap dn, r.min) THEN {} ELSE {"minima"})
     \cup (IF r.zer = Asc(Crossings([k \in 1..Len(r.s) |-> Sign(r.s[k])])) THEN {} ELSE {"zero-crossings"})
     \cup (IF r.same THEN {} ELSE {"input-modified"})
=============================================================================
