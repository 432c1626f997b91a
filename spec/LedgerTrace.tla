----------------------------- MODULE LedgerTrace -----------------------------
(* C01: the components returned, the modes and remainder stored, and the signal *)
(* as exact ledgers.                                                            *)
EXTENDS Ledger, Judge
RowTol == 16384                 \* 2^14 units = 1.5e-11 of the largest magnitude
Shape(rows, n) == \A j \in 1..Len(rows) : Len(rows[j]) = n
If(c, s) == IF c THEN {} ELSE {s}
LedgerBad(r) ==
  IF r.kind # "ledger" THEN {r.kind}
  ELSE IF ~r.finite THEN {"not-finite"}
  ELSE IF ~r.shape THEN {"shape"}
  ELSE LET n == Len(r.s)  K == r.nmodes IN
       (* returned = modes in order, then the remainder unless numerically zero (|.| <= 1e-8: r.zero = "y"; "e" close to it) *)
       If(r.total \in (IF r.zero = "y" THEN {K} ELSE IF r.zero = "n" THEN {K + 1} ELSE {K, K + 1}), "remainder-row")
       \cup If(r.samemodes, "rows-are-not-modes")
       \cup If(r.samerest, "last-row-is-not-remainder")
       (* modes + stored remainder = signal, exactly up to rounding *)
       \cup If(AddsUp(r.rows, r.s, RowTol), "stored-incomplete")
       (* returned rows = signal; a left out remainder costs at most 1e-8 in absolute terms (r.slack units;      *)
       (* tiny: the whole signal is of that order, where this says nothing)                                              *)
       \cup If(r.total = K + 1 \/ r.tiny \/ AddsUp(SubSeq(r.rows, 1, K), r.s, RowTol + r.slack), "incomplete")
=============================================================================
