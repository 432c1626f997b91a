------------------------------ MODULE Instance ------------------------------
(* A decomposition object as its user sees it: a configuration that can be      *)
(* changed between calls, and the results of the last successful call.          *)
(* Everything a call computes is a function of (configuration, arguments[,      *)
(* seed]); here a call is represented by that triple.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
New == [cfg |-> 1, last |-> None]

(* ops: call (arguments g, m), fail (how), cfg (c), res, trend, mutin, mutout, pickle, copy *)
Apply(st, a) ==
  CASE a.op = "call" -> [st EXCEPT !.last = <<st.cfg, a.g, a.m>>]
    [] a.op = "cfg"  -> [st EXCEPT !.cfg = a.c]
    [] OTHER         -> st              \* failures, reads, mutation of arrays, copies change nothing
RECURSIVE Run(_, _)
Run(st, h) == IF h = <<>> THEN st ELSE Run(Apply(st, Head(h)), Tail(h))

(* independent wording: the last successful call and the configuration in force then *)
LastCall(h) == LET I == {i \in 1..Len(h) : h[i].op = "call"} IN
               IF I = {} THEN None
               ELSE LET k == CHOOSE i \in I : \A j \in I : j <= i
                        C == {i \in 1..k : h[i].op = "cfg"}
                        c == IF C = {} THEN 1 ELSE h[CHOOSE i \in C : \A j \in C : j <= i].c
                    IN <<c, h[k].g, h[k].m>>
=============================================================================
