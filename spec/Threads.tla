------------------------------ MODULE Threads ------------------------------
(* Calls at the same time: every thread makes one solve call on an object of its
   own.  Grain = "op": any operation of any thread may be next (all
   interleavings).  Grain = "callback": a thread runs until it calls the user's
   problem (or ends); the order in which threads got their turns is recorded in
   sched, printed when it has MaxTurns entries, and replayed in the
   implementation by threads that pass a token in the problem's functions. *)
EXTENDS CallPrograms, Integers, TLC
CONSTANTS N, Classes, Grain, MaxTurns
VARIABLES class, pos, writer, turn, sched
vars == <<class, pos, writer, turn, sched>>
T == 1..N
Ops(i) == Prog(class[i])
Op(i) == Ops(i)[pos[i]]
Ended(i) == pos[i] > Len(Ops(i))
\* a field knows the thread whose call wrote it last
Init == /\ class \in [T -> Classes] /\ pos = [i \in T |-> 1] /\ writer = [i \in T |-> [f \in Fields |-> 0]] /\ turn = 0 /\ sched = <<>>
Take(i) == /\ Grain = "callback" /\ turn = 0 /\ ~Ended(i)
           /\ turn' = i
           /\ sched' = IF Len(sched) < MaxTurns THEN Append(sched, i) ELSE sched
           /\ (Len(sched) = MaxTurns - 1 => PrintT(<<"CASE", [sched |-> sched']>>))
           /\ UNCHANGED <<class, pos, writer>>
Do(i) == /\ ~Ended(i) /\ (Grain = "op" \/ turn = i)
         /\ writer' = IF Op(i)[1] = "W" THEN [writer EXCEPT ![i][Op(i)[2]] = i] ELSE writer
         /\ pos' = [pos EXCEPT ![i] = @ + 1]
         /\ turn' = IF Grain = "callback" /\ (Op(i) = Callback \/ pos[i] = Len(Ops(i))) THEN 0 ELSE turn
         /\ UNCHANGED <<class, sched>>
Next == \E i \in T : Take(i) \/ Do(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OwnReads == \A i \in T : ~Ended(i) /\ Op(i)[1] = "R" => writer[i][Op(i)[2]] = i
Separate == \A i \in T : \A f \in Fields : writer[i][f] \in {0, i}
AllEnd == <>(\A i \in T : Ended(i))
=============================================================================
