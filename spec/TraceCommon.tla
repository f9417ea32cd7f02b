---------------------------- MODULE TraceCommon ----------------------------
(* Shared by the trace specifications.  The trace file holds one case per line;
   a case records the data given to the implementation and its observed results
   `runs`.  A behaviour examines the runs of one case one after the other; bad
   collects the violated clauses <<property, clause>>. *)
EXTENDS LinAlg, Json, IOUtils, FiniteSets

CONSTANT Props                       \* identifiers of the properties to decide
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, q, bad
vars == <<c, q, bad>>

Cl(pid, name, ok) == IF pid \notin Props THEN {} ELSE IF ok THEN {} ELSE {<<pid, name>>}
\* a call that does not return at all (crash, endless loop) fulfils nothing
Crashed(cs) == IF cs.crash = "" THEN {} ELSE {<<pid, "call does not return">> : pid \in Props}
Seen(kind) == PrintT(<<"SEEN", kind>>)

Init == c \in 1..Len(Cases) /\ q = 0 /\ bad = Crashed(Cases[c])
Conforms == bad = {}
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Total(n - 1) + Len(Cases[n].runs) + 1
Examined == TLCGet("stats").distinct = Total(Len(Cases))
=============================================================================
