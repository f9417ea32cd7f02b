------------------------------ MODULE Sessions ------------------------------
(* A user's session with solver objects: any sequence of solve calls, each on
   one of several objects.

   A call is of one of the kinds 1 .. Len(ClassOf); the class of its kind says what becomes
   of it.  An object owns a workspace of fields that outlives a call.  A call
   runs its program, a sequence of writes and reads of fields and of callbacks
   into the user's problem; a field knows the call that wrote it last.  During a
   callback the user may throw an exception, or make a call on another object
   (a nested call).  The result of a call is a function of its arguments
   exactly if every field it reads was written by the call itself: OwnReads.

   The complete histories (MaxLen calls) are printed and replayed in the
   implementation, where TraceSession judges them. *)
EXTENDS CallPrograms, Integers, TLC
CONSTANTS Last,      \* class of the last of the ordinary kinds of calls
          Solvers,   \* number of objects
          MaxLen,
          Carry,     \* TRUE: a call may omit writing the barrier parameter (FMPC without update and initialisation)
          Throws,    \* TRUE: there are calls during which the problem throws an exception
          Nest       \* TRUE: there are nested calls

ClassOf == <<"ok", "ok", "ok", "malformed", "fail", Last>> \o (IF Throws THEN <<"throws">> ELSE <<>>)
VARIABLES hist,      \* calls so far: <<object, kind, 1 if nested>>
          stack,     \* running calls, the innermost one last: <<number of the call, position in its program>>
          writer     \* per object and field: number of the call that wrote it, 0: never written
vars == <<hist, stack, writer>>

Kinds == 1..Len(ClassOf)
Running == stack # <<>>
Top == stack[Len(stack)]
Cur == hist[Top[1]]
Class == ClassOf[Cur[2]]
Ops == Prog(Class)
Op == Ops[Top[2]]

Init == hist = <<>> /\ stack = <<>> /\ writer = [s \in 1..Solvers |-> [f \in Fields |-> 0]]
\* objects are taken into use in order
Used == {hist[i][1] : i \in 1..Len(hist)}
Call(s, k, n) == /\ s = 1 \/ (s - 1) \in Used
                 /\ hist' = Append(hist, <<s, k, n>>)
                 /\ stack' = Append(stack, <<Len(hist) + 1, 1>>)
                 /\ UNCHANGED writer
Begin == ~Running /\ Len(hist) < MaxLen /\ \E s \in 1..Solvers, k \in Kinds : Call(s, k, 0)
Nested == /\ Nest /\ Len(stack) = 1 /\ Op = Callback /\ Class # "throws" /\ Len(hist) < MaxLen
          /\ \E s \in 1..Solvers \ {Cur[1]}, k \in Kinds : Call(s, k, 1)
Pop == SubSeq(stack, 1, Len(stack) - 1)
Over == stack' = <<>> /\ Len(hist) = MaxLen => PrintT(<<"CASE", [calls |-> hist]>>)
Do == /\ Running
      /\ writer' = IF Op[1] = "W" THEN [writer EXCEPT ![Cur[1]][Op[2]] = Top[1]] ELSE writer
      /\ stack' = IF Top[2] = Len(Ops) THEN Pop ELSE Append(Pop, <<Top[1], Top[2] + 1>>)
      /\ UNCHANGED hist
      /\ Over
Throw == /\ Running /\ Class = "throws" /\ Op = Callback
         /\ stack' = Pop
         /\ UNCHANGED <<hist, writer>>
         /\ Over
Next == Begin \/ Nested \/ Do \/ Throw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Determined(k) == ClassOf[k] # "carried"
OwnReads == Running /\ Op[1] = "R" =>
              \/ writer[Cur[1]][Op[2]] = Top[1]
              \/ Carry /\ ~Determined(Cur[2]) /\ Op[2] = "parameter"
\* an object is never touched by calls on another one
Separate == \A s \in 1..Solvers : \A f \in Fields : writer[s][f] = 0 \/ hist[writer[s][f]][1] = s
\* an object serves one call at a time
Exclusive == \A i, j \in 1..Len(stack) : i # j => hist[stack[i][1]][1] # hist[stack[j][1]][1]
\* every call comes to an end
Ends == Running ~> ~Running
=============================================================================
