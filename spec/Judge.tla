------------------------------- MODULE Judge -------------------------------
(* Total judgement of a file of recorded observations: one step per record,     *)
(* 64 independent lanes.  Bad(r) is the set of violated clauses.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Bad(_)
VARIABLES jlane, jpos
JLanes == 64
JLog == ndJsonDeserialize(IOEnv.TRACE)
JInit == jlane \in 1..JLanes /\ jpos = jlane
JStep == /\ jpos <= Len(JLog)
         /\ LET b == Bad(JLog[jpos])
            IN  IF b = {} THEN TRUE ELSE PrintT(<<"VIOL", JLog[jpos].id, b>>)
         /\ jpos' = jpos + JLanes
         /\ UNCHANGED jlane
JSpec == JInit /\ [][JStep]_<<jlane, jpos>>
(* every record was judged: one distinct state per record plus the initial ones *)
JDone == TLCGet("stats").distinct = Len(JLog) + JLanes
=============================================================================
